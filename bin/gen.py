"""Histories of API calls, generated from a seed with the focus on one property.

A history is {"id", "ev": [calls]}; the driver runs it and adds what each call returned, the
specification judges the result (spec/Engine.tla). Values are tagged as in spec/Doc.tla.
"""
import random

# ------------------------------------------------------------------ values


def S(s):
    return {"t": "s", "v": s}


def N(s):
    return {"t": "n", "v": str(s)}


def B(b):
    return {"t": "b", "v": "true" if b else "false"}


def A(xs):
    return {"t": "a", "v": list(xs)}


def O(d):
    items = d.items() if isinstance(d, dict) else d
    return {"t": "o", "v": [{"k": k, "v": v} for k, v in sorted(items)]}


Z = {"t": "z", "v": ""}
NULL = {"t": "u", "v": ""}


def get(x, k):
    if x["t"] != "o":
        return None
    for p in x["v"]:
        if p["k"] == k:
            return p["v"]
    return None


KEYS = ["a", "b", "c", "d", "name", "x-y", "k.z/w"]
WORDS = ["abc", "abd", "ab", "x", "yes", "foo bar", "Abc", "prod", "dev-1", "a/b"]
NUMS = ["0", "1", "2", "5", "7", "10", "15", "100", "1024", "2048", "0.5", "1.5", "-3", "12.25", "1000", "1000000", "1048576", "4294967296", "0.00001"]
NUMTEXTS = ["5", "10", "1Ki", "1K", "2M", "100m", "50%", "0.5", "-3", "1e3", "1024", "1000", "1Mi", "10G"]
ODD = ["a\\b", "C:\\dir\\x", "say \"hi\" now", "<b>", "a&b", "x > 1", "null", "a\"b\\"]
SCALARS = ["s", "s", "s", "n", "n", "b", "t", "e"]


class G:
    def __init__(self, seed, thorough=False):
        self.r = random.Random(seed)
        self.n = 0
        self.thorough = thorough
        self.mixing = False
        self.odd = False        # nulls and texts that JSON writes with escapes
        self.big = False        # every now and then: long lists, wide trees, deep documents

    # ------------------------------------------------------------- helpers
    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def scalar(self):
        if self.odd and self.p(.25):
            return NULL if self.p(.4) else S(self.pick(ODD))
        k = self.pick(SCALARS)
        if k == "s":
            return S(self.pick(WORDS))
        if k == "n":
            return N(self.pick(NUMS))
        if k == "b":
            return B(self.p(.5))
        if k == "t":
            return S(self.pick(NUMTEXTS))
        return S("")

    def item(self, text=None):
        """scalar inside an array; arrays of empty texts are not told from empty arrays.
        Arrays hold either texts or other scalars unless mixing is on"""
        x = self.scalar()
        while text is not None and not self.mixing and (x["t"] == "s") != text:
            x = self.scalar()
        return x if x["v"] != "" or x["t"] == "u" else S("abc")

    def size(self, n, low=0, high=15):
        """a number below n; in big histories often well above"""
        if self.big and self.p(.3):
            return self.r.randrange(n + 4, high)
        return self.r.randrange(low, n)

    def items(self):
        t = self.p(.5)
        return A([self.item(t) for _ in range(self.size(4))])

    def value(self, depth):
        x = self.r.random()
        if depth == 0 or x < .45:
            return self.scalar()
        if x < .65:
            return self.object(depth - 1)
        if x < .75:
            return self.items()
        n = self.size(4, 0, 13)
        return A([self.object(depth - 1 if n < 5 else 0, flat=self.p(.5)) for _ in range(n)])

    def object(self, depth, flat=False):
        n = self.r.randrange(0 if self.p(.15) else 1, 5)
        return O({k: (self.scalar() if flat else self.value(depth)) for k in self.r.sample(KEYS, n)})

    def doc(self):
        d = self.object(3)
        while len(d["v"]) < 2:
            d = self.object(3)
        if self.big and self.p(.3):     # the same document far down
            for k in self.r.sample(KEYS[:4], 4):
                d = O({k: d, "name": self.scalar()})
        return d

    def variant(self, x, inside=False):
        """a document of the same shape: fields and last items missing, other scalars"""
        if x["t"] == "o":
            return O({p["k"]: self.variant(p["v"]) for p in x["v"] if self.p(.85)})
        if x["t"] == "a":
            keep = len(x["v"]) if self.p(.6) else self.r.randrange(len(x["v"]) + 1)
            return A([self.variant(y, True) for y in x["v"][:keep]])
        if self.p(.6):
            return x
        if not inside:
            return self.scalar()
        y = self.item(x["t"] == "s")
        while (y["t"] == "s") != (x["t"] == "s"):
            y = self.item(x["t"] == "s")
        return y

    def paths(self, x, pre=()):
        """all paths (tuples of names and indices) below x, with the value found"""
        out = []
        if x["t"] == "o":
            for p in x["v"]:
                out.append((pre + (p["k"],), p["v"]))
                out += self.paths(p["v"], pre + (p["k"],))
        if x["t"] == "a":
            for i, y in enumerate(x["v"]):
                out.append((pre + (i,), y))
                out += self.paths(y, pre + (i,))
        return out

    def render(self, path, style=None):
        """text of a path after the leading '$' or '$RELATIVE'"""
        out = ""
        for s in path:
            if isinstance(s, int):
                out += "[%d]" % s
                continue
            ident = s.isidentifier()
            k = style or self.pick(["dot"] * 6 + ["br", "br1", "dotbr", "dq", "dq1"])
            if not ident:
                k = {"br": "br", "br1": "br1", "dotbr": "dotbr"}.get(k, "br")
            if out == "" and k in ("br", "br1"):
                k = "dotbr"
            if k == "dot":
                out += "." + s
            elif k == "br":
                out += '["%s"]' % s
            elif k == "br1":
                out += "['%s']" % s
            elif k == "dotbr":
                out += '.["%s"]' % s
            elif k == "dq":
                out += '."%s"' % s
            else:
                out += ".'%s'" % s
        return out

    # ---------------------------------------------------------- conditions
    def case(self, m):
        return m.lower() if m != "IS" and self.p(.3) else m

    def value_for(self, m, x):
        """a rule value for method m, near the value x found in the document"""
        t = x["v"] if x is not None and x["t"] in "snb" else ""
        if m in ("GE", "GT", "LE", "LT"):
            if x is not None and self.p(.4) and t and self.isnum(t):
                return t
            return self.pick(NUMTEXTS + NUMS)
        if m in ("IN", "NIN", "IS"):
            items = [self.pick(WORDS + NUMS) for _ in range(self.size(4, 1))]
            items = [i for i in items if "." not in i and "-" not in i[:1]] or ["abc"]
            if t and self.p(.6) and all(c.isalnum() or c in " -/%" for c in t):
                items[self.r.randrange(len(items))] = t
            v = ",".join(items)
            return "[" + v + "]" if self.p(.3) else v
        if m in ("RE", "NRE"):
            c = ["^a", "b", "c$", "^abc$", "a.c", "^$", ".*", "[a-c]+$", "x|y", "(ab)+", "^[0-9]+$", "o b", "d?e", "^dev-[0-9]$", "\\d", "\\w+"]
            if self.odd:
                c += ["\\\\", "<", "&", "\"", "^null$", "b>$"]
            if t and t.isalnum():
                c += [t, "^" + t + "$", t[:1], t[-1:] + "$"] * 2
            return self.pick(c)
        if m in ("EX", "NEX"):
            return self.pick(["", "abc"])
        if t and self.p(.55):
            return t
        return self.pick(WORDS + NUMS + NUMTEXTS)

    @staticmethod
    def isnum(t):
        for u in ["%", "e3", "e6", "e9", "e12", "e15", "e18", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "K", "M", "G", "T", "P", "E", "m"]:
            if t.endswith(u) and t.count(u) == 1:
                t = t.replace(u, "")
                break
        try:
            float(t)
            return True
        except ValueError:
            return False

    def target(self, root):
        """a path below root with its value (None when it leads nowhere)"""
        ps = self.paths(root)
        ps = [p for p in ps if not isinstance(p[0][0], int)]
        if not ps or self.p(.15):
            path = tuple(self.pick(KEYS) for _ in range(self.r.randrange(1, 3)))
            if ps and self.p(.5):
                path = self.pick(ps)[0] + (self.pick(KEYS + [0, 3]),)
            v = root
            for s in path:
                if v is None:
                    break
                v = get(v, s) if isinstance(s, str) else (v["v"][s] if v["t"] == "a" and s < len(v["v"]) else None)
            return path, v
        return self.pick(ps)

    METHODS = ["EQ", "NEQ", "NE", "GE", "GT", "LE", "LT", "RE", "NRE", "IN", "NIN", "IS", "EX", "NEX"]

    @staticmethod
    def mixed(v):
        """array with texts and other values, or unusual texts: has no text form to compare with"""
        return any(c in str(v) for c in "\\<>&") or v["t"] == "a" and len({x["t"] == "s" for x in v["v"]}) > 1

    def method_for(self, v, composite):
        if v is not None and v["t"] in "ao" and (not composite or self.mixed(v)):
            return self.pick(["EX", "NEX"])
        return self.pick(self.METHODS)

    def doc_cond(self, doc, composite=False, methods=None, style=None):
        path, v = self.target(doc)
        m = self.pick(methods) if methods else self.method_for(v, composite)
        if methods and v is not None and v["t"] in "ao" and (not composite or self.mixed(v)):
            m = self.pick(["EX", "NEX"])
        pre = self.pick(["$", "$", "$", ""])
        return ["cond", "jsonpath:" + pre + self.render(path, style), self.case(m), self.value_for(m, v), {}]

    def rel_cond(self, el, composite=False):
        """condition on the element el of an ANY/ALL"""
        if el is None:
            el = O({"a": N("1")})
        if el["t"] != "o":
            m = self.method_for(el, composite)
            return ["cond", "jsonpath:$RELATIVE", self.case(m), self.value_for(m, el), {}]
        path, v = self.target(el)
        m = self.method_for(v, composite)
        return ["cond", "jsonpath:$RELATIVE" + self.render(path), self.case(m), self.value_for(m, v), {}]

    def pair_cond(self, el):
        """condition on a key-value pair"""
        k, v = (el["v"][0]["k"], el["v"][0]["v"]) if el is not None and el["t"] == "o" and el["v"] else ("a", N("1"))
        if self.p(.4):
            m = self.pick(["EQ", "NEQ", "RE", "NRE", "IN", "NIN", "EX", "NEX"])
            return ["cond", "jsonpath:$KEY", self.case(m), self.value_for(m, S(k)), {}]
        if v["t"] == "o" and self.p(.7):
            path, w = self.target(v)
            m = self.method_for(w, False)
            return ["cond", "jsonpath:$VALUE" + self.render(path), self.case(m), self.value_for(m, w), {}]
        m = self.method_for(v, False)
        return ["cond", "jsonpath:$VALUE", self.case(m), self.value_for(m, v), {}]

    def attr_cond(self, a):
        """condition on an attribute of message a"""
        k = self.pick(["payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain",
                       "$sender", "$receiver", "senderLabel", "receiverLabel", "const", "label2", "party2"])
        num = {"payloadSize": "size", "utcHoursFromMidnight": "hours", "encryptionVersion": "encv"}
        txt = {"requestUseragent": "ua", "encryptionType": "enct", "domain": "dom"}
        tm = ["EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "IS", "EX", "NEX"]
        if k == "const":
            return ["cond", self.pick(["true", "false", "TRUE", "FALSE"]), self.pick(["EQ", "eq", "EX"]), "x", {}]
        if k in num:
            t = a[num[k]]
            ms = ["EQ", "LT", "LE", "GT", "GE"] if k == "encryptionVersion" else \
                ["EQ", "NEQ", "NE", "LT", "LE", "GT", "GE", "LT", "GT", "EX", "RE", "IN"]
            m = self.pick(ms)
            v = t if t and self.p(.4) else self.pick(["0", "1", "1.2", "1.3", "13", "13.5", "8", "100", "1024", "1Ki", "1K", "2000", "0.5K", "150%", "24"])
            if m in ("EQ", "NEQ") and self.p(.1):
                v = "abc"
            if m in ("EX",):
                v = ""
            return ["cond", k, self.case(m), v, {}]
        if k in txt:
            m = self.pick(tm)
            return ["cond", k, self.case(m), self.attr_value(m, a[txt[k]]), {}]
        if k in ("$sender", "$receiver", "party2"):
            side = "$sender" if k == "party2" else k
            what = self.pick(["namespace", "cluster", "namespace", "cluster", "zone"])
            f = {("$sender", "namespace"): "sns", ("$sender", "cluster"): "scl", ("$receiver", "namespace"): "dns",
                 ("$receiver", "cluster"): "dcl"}.get((side, what))
            t = a[f] if f else ""
            if k == "party2":
                m = self.pick(["EQ", "NEQ", "NE", "EQ", "RE", "NRE"])
                return ["cond", side + "." + what, self.case(m), "$receiver." + self.pick(["namespace", "cluster"]), {}]
            m = self.pick(tm)
            return ["cond", side + "." + what, self.case(m), self.attr_value(m, t), {}]
        keys = ["app", "tier", "env", "zone"] + self.KEYS
        lab = self.pick(keys)
        if k == "label2":
            key = self.pick(keys)
            m = self.pick(["EQ", "NEQ", "NE", "EQ", "NEX"] + ([] if key in self.KEYS else ["RE", "NRE"]))
            return ["cond", "senderLabel[%s]" % lab, self.case(m), "receiverLabel[%s]" % key, {}]
        ls = {p["k"]: p["v"] for p in a["sl" if k == "senderLabel" else "dl"]}
        m = self.pick(tm)
        return ["cond", "%s[%s]" % (k, lab), self.case(m), self.attr_value(m, ls.get(lab, "")), {}]

    def attr_value(self, m, t):
        if m in ("IN", "NIN", "IS"):
            items = [self.pick(["abc", "abd", "web", "db", "prod", "ns1", "TLS", "curl"]) for _ in range(self.r.randrange(1, 4))]
            if t and self.p(.6):
                items[self.r.randrange(len(items))] = t
            return ",".join(items)
        if m in ("RE", "NRE"):
            c = ["^a", "b$", "^web$", ".*", "^$", "ns[0-9]", "prod|dev", "^[a-z]+$"]
            return self.pick(c + ([t, t[:2], "^" + t + "$"] * 2 if t else []))
        if m in ("EX", "NEX"):
            return self.pick(["", "x"])
        return t if t and self.p(.55) else self.pick(["abc", "web", "db", "prod", "ns1", "ns2", "TLS", "curl", "we", "webb"])

    def leaf(self, a, doc):
        return self.attr_cond(a) if self.p(.4) else self.doc_cond(doc)

    # --------------------------------------------------------------- trees
    def bool_tree(self, depth, leaf):
        if depth == 0 or self.p(.15):
            return leaf()
        k = self.pick(["and", "or", "not", "and", "or"])
        if k == "not":
            return ["not", self.bool_tree(depth - 1, leaf)]
        n = self.pick([1, 2, 2, 3, 3, 4])
        if self.big and self.p(.2):
            n, depth = self.r.randrange(6, 12), min(depth, 2)
        return [k, [self.bool_tree(depth - 1, leaf) for _ in range(n)]]

    def collections(self, root, objects=True):
        """paths below root to arrays and objects that a parent can name"""
        out = []
        for path, v in self.paths(root):
            if isinstance(path[0], int):
                continue
            if v["t"] == "a" or (objects and v["t"] == "o"):
                out.append((path, v))
        return out

    def parent_text(self, path, v, root, rel):
        """a parent path text naming the collection, and the elements it names"""
        t = ""
        for s in path:
            if isinstance(s, int):
                t += "[%d]" % s
            elif s.isidentifier():
                t += "." + s if self.p(.85) or t == "" else '["%s"]' % s
            else:
                t += '["%s"]' % s if t else '.["%s"]' % s
        if t.startswith('.["'):
            return None, []
        if v["t"] == "a":
            t += self.pick(["[:]", "[:]", "[*]", ""])
            els = v["v"]
        else:
            els = [O([(p["k"], p["v"])]) for p in v["v"]]
        pre = "jsonpath:$RELATIVE" if rel else self.pick(["jsonpath:$", "jsonpath:$", "jsonpath:"])
        return pre + t, els

    def all_items_parent(self, root):
        """$.x[:].y[:]: items of the arrays inside the items of an array"""
        for path, v in self.r.sample(self.collections(root, False), len(self.collections(root, False))):
            if v["t"] != "a" or not v["v"] or v["v"][0]["t"] != "o":
                continue
            names = {}
            for e in v["v"]:
                for q in e["v"]:
                    names.setdefault(q["k"], []).append(q["v"])
            for k, vs in names.items():
                if k.isidentifier() and all(w["t"] == "a" for w in vs) and all(isinstance(s, str) and s.isidentifier() for s in path):
                    return "jsonpath:$" + "".join("." + s for s in path) + "[:]." + k + "[:]", [x for w in vs for x in w["v"]]
        return None, []

    def parent(self, doc, el, lists=True):
        """parent text and the elements it names; el: element of the enclosing quantifier"""
        x = self.r.random()
        if el is None and x < .08:
            t, els = self.all_items_parent(doc)
            if t:
                return t, els, "a"
        if el is None and x < .14:
            arrays = [(p, v) for p, v in self.collections(doc, False) if isinstance(p[-1], str) and p[-1].isidentifier()]
            if arrays:
                name = self.pick(arrays)[0][-1]
                found = [(p, v) for p, v in self.paths(doc) if p[-1] == name]
                if all(v["t"] == "a" for p, v in found):
                    return "jsonpath:$.." + name + self.pick(["[:]", "[*]", ""]), [e for p, v in found for e in v["v"]], "a"
        root, rel = (el, True) if el is not None and el["t"] == "o" and self.p(.75) else (doc, False)
        if rel and self.p(.12):
            return "jsonpath:$RELATIVE*", [O([(p["k"], p["v"])]) for p in root["v"]], "o"
        cs = self.collections(root)
        if not cs or self.p(.07):
            return ("jsonpath:$RELATIVE" if rel else "jsonpath:$") + self.pick([".nope[:]", ".nope", ".a.nope[:]"]), [], "a"
        if lists and self.p(.2):
            few = [(p, v) for p, v in cs if v["t"] == "a"]
            if lists != "arrays" and self.p(.5):
                few = cs
            both = el is not None and lists != "arrays" and self.p(.3)
            texts, els = [], []
            for i in range(self.r.randrange(2, 4)):
                r1, rel1, from1 = root, rel, few
                if both and i and self.p(.6):
                    r1, rel1 = (doc, False) if rel else (el, True)
                    from1 = self.collections(r1) if r1["t"] == "o" else []
                if not from1:
                    continue
                p, v = self.pick(from1)
                t, e = self.parent_text(p, v, r1, rel1)
                if t is None:
                    continue
                if not t.startswith("jsonpath:$"):
                    t = t.replace("jsonpath:", "jsonpath:$")
                texts.append(t)
                els += e
            if texts and self.p(.2):
                texts.insert(self.r.randrange(len(texts) + 1), ("jsonpath:$RELATIVE" if rel else "jsonpath:$") + ".nope[:]")
            if len(texts) > 1:
                sep = ",jsonpath:" if self.p(.5) else ","
                kind = "o" if els and all(e["t"] == "o" and len(e["v"]) == 1 for e in els) else "a"
                return texts[0] + "".join(sep + t[len("jsonpath:"):] for t in texts[1:]), els, kind
        for _ in range(4):
            p, v = self.pick(cs)
            t, els = self.parent_text(p, v, root, rel)
            if t is not None:
                return t, els, v["t"]
        return "jsonpath:$.nope[:]", [], "a"

    def quant(self, doc, el, depth, a=None, returns=False, lists=True):
        t, els, kind = self.parent(doc, el, lists)
        cur = self.pick(els) if els else None

        def leaf():
            x = self.r.random()
            if depth > 0 and x < .25:
                return self.quant(doc, cur, depth - 1, a, lists=lists)
            if x < .35 and not (cur is not None and cur["t"] == "o" and kind == "o"):
                return self.doc_cond(doc)
            if a is not None and x < .42:
                return self.attr_cond(a)
            if kind == "o" and self.p(.8):
                return self.pair_cond(cur)
            return self.rel_cond(cur)

        body = self.bool_tree(self.pick([0, 0, 1, 1, 2]), leaf)
        r = {}
        if returns:
            r = self.rel_returns(cur)
        return [self.pick(["any", "any", "all"]) if not returns else "any", t, r, body]

    def nest_doc(self):
        """small document made for quantifiers within quantifiers"""
        n = lambda: N(self.pick(["1", "2"]))
        t = lambda: S(self.pick(["x", "y"]))
        leaf = lambda: O({"c": n(), "e": t()})
        el = lambda: O({"b": A([leaf() for _ in range(self.r.randrange(3))]), "g": A([leaf() for _ in range(self.r.randrange(3))]),
                        "d": n(), "o": O({k: n() for k in self.r.sample(["k", "l", "m"], self.r.randrange(3))})})
        return O({"a": A([el() for _ in range(self.r.randrange(1, 4))]), "z": n(), "w": A([n() for _ in range(self.r.randrange(3))])})

    def nest_tree(self, returns=False):
        """quantifier over the items of nest_doc whose body mixes inner quantifiers and conditions on the item"""
        cond = lambda att, v: ["cond", "jsonpath:" + att, self.case(self.pick(["EQ", "EQ", "NEQ"])), v, {}]
        num = lambda: self.pick(["1", "2"])

        def inner():
            x = self.r.random()
            if x < .6:
                body = [cond("$RELATIVE.c", num()), cond("$RELATIVE.e", self.pick(["x", "y"]))]
                if self.p(.2):
                    body.append(cond("$.z", num()))
                b = [self.pick(["and", "or"]), body] if self.p(.6) else self.pick(body)
                return [self.pick(["any", "all"]), "jsonpath:$RELATIVE." + self.pick(["b[:]", "g[:]", "b[*]", "g", "b[:],$RELATIVE.g[:]"]), {}, b]
            if x < .8:
                b = [self.pick(["and", "or"]), [cond("$KEY", self.pick("klm")), cond("$VALUE", num())]]
                return [self.pick(["any", "all"]), "jsonpath:$RELATIVE.o", {}, b]
            return [self.pick(["any", "all"]), "jsonpath:$.w[:]", {}, cond("$RELATIVE", num())]

        def part():
            x = self.r.random()
            q = inner() if x < .55 else cond("$RELATIVE.d", num()) if x < .9 else cond("$.z", num())
            return ["not", q] if self.p(.2) else q
        body = [self.pick(["and", "or"]), [part() for _ in range(self.pick([2, 2, 3, 4]))]]
        if self.p(.2):
            body = ["not", body]
        r = {"out": "jsonpath:$RELATIVE." + self.pick(["d", "b", "o"])} if returns else {}
        return ["any" if returns else self.pick(["any", "all"]), "jsonpath:$.a" + self.pick(["[:]", "[*]", ""]), r, body]

    def nest_case(self, returns=False):
        """history on small documents with nested quantifiers"""
        ev = []
        for i in range(2):
            a = self.attrs(doc=self.nest_doc())
            ev += [self.msg("m%d" % (2 * i), a, self.pick(["raw", "pretty"])), self.msg("m%d" % (2 * i + 1), a, "parsed")]
        for i in range(4):
            q = self.nest_tree(returns and self.p(.8))
            if self.p(.3):
                q = [self.pick(["and", "or"]), [q, self.nest_tree(returns and self.p(.8))]]
            h = "r%d" % i
            ev.append(self.load(h, self.rule(q)))
            for m in range(4):
                ev.append(self.test(h, "m%d" % m))
        return ev

    def deep_case(self, returns=False):
        """quantifiers three or four deep over a document of that depth"""
        levels = self.pick([3, 3, 4])

        def el(d):
            x = {"n": N(self.pick(["1", "2"]))}
            if d and self.p(.85):
                x["l"] = A([el(d - 1) for _ in range(self.r.randrange(0 if self.p(.2) else 1, 3))])
            if d and self.p(.3):
                x["o"] = O({k: N(self.pick(["1", "2"])) for k in self.r.sample("kl", self.r.randrange(1, 3))})
            return O(x)

        def cond(att="jsonpath:$RELATIVE.n"):
            return ["cond", att, self.case(self.pick(["EQ", "EQ", "NEQ", "GT"])), self.pick(["1", "2"]), {}]

        def quant(d, pre):
            parts = [cond()]
            if d:
                parts.append(quant(d - 1, "jsonpath:$RELATIVE"))
                if self.p(.4):
                    parts.append(cond())
                if self.p(.3):
                    parts.append(quant(d - 1 if self.p(.3) else 0, "jsonpath:$RELATIVE"))
                if self.p(.15):
                    parts.append([self.pick(["any", "all"]), "jsonpath:$RELATIVE.o", {}, cond("jsonpath:$VALUE")])
                if self.p(.15):
                    parts.append(cond("jsonpath:$.n"))
            self.r.shuffle(parts)
            b = parts[0] if len(parts) == 1 else [self.pick(["and", "or"]), parts]
            if self.p(.15):
                b = ["not", b]
            return [self.pick(["any", "all", "any"]), pre + ".l" + self.pick(["[:]", "[*]", ""]), {}, b]
        a = self.attrs(doc=el(levels))
        ev = [self.msg("m0", a, self.pick(["raw", "pretty"])), self.msg("m1", a, "parsed")]
        for i in range(4):
            q = quant(levels - 1, "jsonpath:$")
            if returns and q[0] == "any":
                q[2] = {"v": "jsonpath:$RELATIVE.n", "w": "jsonpath:$RELATIVE.l"}
            h = "r%d" % i
            ev += [self.load(h, self.rule(q)), self.test(h, "m0"), self.test(h, "m1")]
        return ev

    def map_case(self, returns=False):
        """quantifiers over the fields of objects, reached directly, inside list elements and inside other objects"""
        texts = ["x", "y", "{x", "y}", "x,y", "a: b", "x]", "[y"]

        def val(d):
            x = self.r.random()
            if d and x < .6:
                return O({k: val(d - 1) for k in self.r.sample(["k", "v", "w", "a-b"], self.r.randrange(4))})
            return N(self.pick(["1", "2", "10"])) if x < .85 else S(self.pick(texts[:6]))
        obj = lambda d: O({k: val(d) for k in self.r.sample(["k", "v", "w", "k1", "x.y", "a/b"], self.r.randrange(5))})

        def cond(pair):
            m = self.pick(["EQ", "EQ", "NEQ", "EX", "NEX", "GE", "RE", "NRE", "IN", "NIN"])
            if pair and self.p(.35):
                m = self.pick(["EQ", "NEQ", "RE", "NRE", "IN", "NIN"])
                v = self.pick(["k", "v", "w", "x.y", "nope"]) if m in ("EQ", "NEQ") else self.pick(["^k", "k$", "1", "^[vw]$"]) if m in ("RE", "NRE") else self.pick(["k,v", "w", "v, k1"])
                return ["cond", "jsonpath:$KEY", self.case(m), v, {}]
            v = {"RE": "^[12x]", "NRE": "y", "IN": "1,x", "NIN": "2,y", "EX": "", "NEX": "", "GE": self.pick(["2", "10"])}.get(m) or ("" if m in ("EX", "NEX") else self.pick(["1", "2", "10", "x", "{x", "y}", "x,y", "a: b"]))
            sub = self.pick(["", "", ".k", ".v", ".w", ".v.k", ".v.w", "['a-b']"]) if pair else self.pick([".k", ".v", ".w"])
            if sub.startswith("["):
                sub = ".v"
            return ["cond", "jsonpath:" + ("$VALUE" if pair else "$RELATIVE") + sub, self.case(m), v, {}]

        def quant(d, parent, pair):
            def leaf():
                x = self.r.random()
                if d and x < .3:
                    if pair:
                        return quant(d - 1, self.pick(["jsonpath:$.o", "jsonpath:$.p.q", "jsonpath:$RELATIVE.k", "jsonpath:$RELATIVE.v", "jsonpath:$RELATIVE*"]), True)
                    return quant(d - 1, self.pick(["jsonpath:$RELATIVE*", "jsonpath:$RELATIVE.v", "jsonpath:$RELATIVE.k", "jsonpath:$.o"]), True)
                return cond(pair)
            return [self.pick(["any", "any", "all"]), parent, {}, self.bool_tree(self.pick([0, 1, 1, 2]), leaf)]
        ev = []
        for i in range(2):
            a = self.attrs(doc=O({"o": obj(2), "p": O({"q": obj(2)}), "l": A([obj(2) for _ in range(self.r.randrange(3))])}))
            ev += [self.msg("m%d" % (2 * i), a, self.pick(["raw", "pretty"])), self.msg("m%d" % (2 * i + 1), a, "parsed")]
        for i in range(4):
            x = self.r.random()
            q = quant(2, "jsonpath:$.o", True) if x < .35 else quant(2, "jsonpath:$.p.q", True) if x < .5 else quant(2, "jsonpath:$.l" + self.pick(["", "[:]", "[*]"]), False)
            if returns and q[0] == "any":
                q[2] = {"v": self.pick(["jsonpath:$RELATIVE*", "jsonpath:$RELATIVE.k", "jsonpath:$RELATIVE.v"])}
            h = "r%d" % i
            ev.append(self.load(h, self.rule(q)))
            for m in range(4):
                ev.append(self.test(h, "m%d" % m))
        return ev

    def rel_returns(self, el):
        r = {}
        for name in self.r.sample(["v1", "v2", "out"], self.r.randrange(1, 3)):
            x = self.r.random()
            if x < .15:
                r[name] = "jsonpath:$RELATIVE*"
            elif el is not None and el["t"] == "o":
                path, _ = self.target(el)
                r[name] = "jsonpath:$RELATIVE" + self.render(path, "dot") if all(isinstance(s, int) or s.isidentifier() for s in path) else "jsonpath:$RELATIVE*"
            else:
                r[name] = "jsonpath:$RELATIVE*"
        return r

    def abs_returns(self, doc):
        r = {}
        for name in self.r.sample(["v1", "v2", "out"], self.r.randrange(1, 3)):
            path, _ = self.target(doc)
            if all(isinstance(s, int) or s.isidentifier() for s in path):
                r[name] = "jsonpath:$" + self.render(path, "dot")
        return r

    # ----------------------------------------------------- writing a tree
    def write(self, n, key="", plain=False):
        """tagged value for tree n found under key"""
        x = self.write1(n, plain)
        if key == "" and not plain and self.p(.1):
            return A([x])
        return x

    def write1(self, n, plain):
        k = n[0]
        if k == "cond":
            cap = not plain and self.p(.1)
            d = {("Attribute" if cap else "attribute"): S(n[1]), ("Method" if cap else "method"): S(n[2])}
            if n[3] != "" or self.p(.5):
                v = S(n[3])
                if not plain and self.p(.2) and n[3] in ("5", "10", "1", "100", "0.5", "1.5", "1024", "-3", "1000000", "1048576", "4294967296", "0.00001"):
                    v = N(n[3])
                d["Value" if cap else "value"] = v
            if n[4]:
                d["ReturnValueJsonpath" if cap else "returnValueJsonpath"] = O({a: S(b) for a, b in n[4].items()})
            c = O(d)
            return c if plain or self.p(.6) else O({"condition": c})
        if k in ("and", "or"):
            kids = n[1]
            if len(kids) == 1 and not plain and self.p(.4):
                return O({k.upper(): self.write1(kids[0], plain)})
            return O({k.upper(): A([self.write(c, "", plain) for c in kids])})
        if k == "not":
            if not plain and self.p(.2):
                return O({"NOT": A([self.write(n[1], "", plain)])})
            return O({"NOT": self.write1(n[1], plain)})
        d = {"parentJsonpathAttribute": S(n[1])}
        if n[2]:
            d["returnValueJsonpath"] = O({a: S(b) for a, b in n[2].items()})
        body = self.write1(n[3], plain)
        if n[3][0] == "cond":
            d["condition"] = body
            if len(body["v"]) == 1 and self.p(.5):
                d["condition"] = body["v"][0]["v"]
        elif self.p(.5):
            d[body["v"][0]["k"]] = body["v"][0]["v"]
        else:
            d["condition"] = body
        return O({k.upper(): O(d)})

    # ------------------------------------------------------ rules, messages
    def rule(self, tree=None, raw=None, **kw):
        self.n += 1
        r = dict(id=str(self.n), st="*", sn="*", rt="*", rn="*", proto="*", rest="", resn="", oper="*", dec="block", meta=[], cond=Z)
        r.update(kw)
        if tree is not None:
            r["cond"] = self.write(tree)
        if raw is not None:
            r["cond"] = raw
        return r

    def attrs(self, **kw):
        lab = lambda: [{"k": k, "v": self.pick(["web", "db", "prod", "abc", ""])} for k in sorted(self.r.sample(["app", "tier", "env"] + (self.KEYS if self.p(.3) else []) + (["l%d" % i for i in range(8)] if self.big else []), self.r.randrange(0, 9 if self.big else 4)))]
        a = dict(id="m%d" % self.r.randrange(100), sip="10.0.0.1", dip="10.0.0.2", ssvc="svc.a", dsvc="svc.b", host="h.example.com",
                 proto="http", ptype="path", path="/x", port="8080", method="GET",
                 size=self.pick(["0", "100", "1024", "1000", "2000"]), hours=self.pick(["0", "8", "13", "13.5", "23.75"]),
                 encv=self.pick(["", "1", "1.2", "1.3"]), enct=self.pick(["", "TLS", "abc"]), ua=self.pick(["", "curl", "abc"]),
                 dom=self.pick(["", "prod", "web"]), sns=self.pick(["", "ns1", "ns2"]), dns=self.pick(["", "ns1", "ns2"]),
                 scl=self.pick(["", "ns1", "abc"]), dcl=self.pick(["", "abc", "db"]), sl=lab(), dl=lab(), doc=Z)
        a.update(kw)
        return a

    def msg(self, name, a, mode="raw"):
        return {"op": "msg", "m": name, "a": a, "mode": mode}

    def load(self, h, rule, fmt=None, p=None):
        fmt = fmt or self.pick(["yaml"] * 6 + ["json", "json", "file"])
        if fmt == "bson" and rule["cond"]["t"] == "a":
            fmt = "json"
        ev = {"op": "load", "h": h, "fmt": fmt, "rule": rule, "style": self.pick(["block", "flow"])}
        if p is not None:
            ev["p"] = p
        return ev

    def check(self, hs, m):
        return {"op": "check", "hs": hs, "m": m}

    def digits(self, n):
        return "".join(self.pick("0123456789") for _ in range(n))

    KEYS = ["app-name", "x.y/z", "App", "a_b.c"]       # labels with other characters

    def one(self, h, m):
        return {"op": "one", "h": h, "m": m, "via": self.pick(["func", "method"])}

    def test(self, h, m):
        return {"op": "test", "h": h, "m": m, "via": self.pick(["func", "method"])}

    def mode(self):
        return self.pick(["raw", "parsed", "pretty"])

    # ================================================== generators by property
    def C01(self):
        a = self.attrs(doc=self.doc())
        n = self.size(7, 1, 24)
        ev, hs = [], []
        rules = []
        for i in range(n):
            dec = self.pick(["allow", "alert", "block", "ALLOW", "Alert", "BLOCK", "Block", "Allow", "ALERT", "deny", "none"])
            sn = self.pick(["*", "*", "svc.a", "svc.*", "nope"])
            meta = self.pick([[], [{"k": "description", "v": "rule number %d" % i}], [{"k": "description", "v": "d%d" % i}, {"k": "owner", "v": "o"}],
                              [{"k": "owner", "v": "x"}]])
            t = self.pick([None, None, None, ["cond", self.pick(["true", "false"]), "EQ", "x", {}]])
            rules.append(self.rule(t, sn=sn, dec=dec, meta=meta))
            hs.append("r%d" % i)
        if self.p(.5):
            ev.append({"op": "loads", "to": hs, "fmt": self.pick(["yaml", "json", "file"]), "rules": rules, "style": self.pick(["block", "flow"])})
        else:
            ev += [self.load(h, r) for h, r in zip(hs, rules)]
        ev.append(self.msg("m", a, self.mode()))
        ev.append(self.check(hs, "m"))
        for h in hs:
            if self.p(.5):
                ev.append(self.one(h, "m"))
        for _ in range(3):
            order = hs[:]
            self.r.shuffle(order)
            ev.append(self.check(order[:self.r.randrange(0, n + 1)] if self.p(.3) else order, "m"))
        return ev

    NAMES = ["svc", "svc.a", "svc-a", "a", "ab", "abc", "svc.a.b", "A", "sv", "svcxa", "", "a$b", "a^b", "a/b", "a_b", "x.y.z"]

    def pattern(self):
        base = self.pick([n for n in self.NAMES if n])
        s = ""
        for c in base:
            x = self.r.random()
            s += "*" if x < .1 else "?" if x < .2 else c
        if self.p(.2):
            s = s[:self.r.randrange(len(s) + 1)] + "*"
        if self.p(.15):
            s = "*" + s[self.r.randrange(len(s) + 1):]
        return s or "*"

    def pattern_list(self):
        items = [self.pattern() for _ in range(self.pick([1, 1, 2, 2, 3]) if not self.big else self.r.randrange(4, 14))]
        out = ""
        for i, it in enumerate(items):
            if i:
                out += ","
            out += self.pick(["", "", "", " ", "  "]) + it + self.pick(["", "", "", " "])
        return out

    def C02(self):
        a = self.attrs(doc=self.doc(), ssvc=self.pick(["a", "b"]), dsvc=self.pick(["a", "b"]), host=self.pick(["a", "b"]),
                       method=self.pick(["GET", "POST"]), proto=self.pick(["http", "HTTP", "kafka", "tcp"]), ptype=self.pick(["path", "topic"]),
                       path=self.pick(["/x", "/y"]), port=self.pick(["80", "443"]), sip=self.pick(["10.0.0.1", "10.1.0.1"]),
                       dip=self.pick(["10.0.0.1", "10.1.0.1"]))
        ev = [self.msg("m", a, self.mode())]
        hs = []
        for i in range(self.r.randrange(2, 6)):
            st, rt = self.pick(["*", "workload", "subnet", "hostname", "", "Workload"]) if self.p(.3) else "workload", \
                self.pick(["*", "workload", "subnet", "hostname", "", "Subnet"]) if self.p(.4) else "workload"
            sn = self.pick(["10.0.0.0/16", "10.0.0.1", "10.1.0.0/24", "*"]) if st == "subnet" else self.pick(["a", "*", "a,b", "b"])
            rn = self.pick(["10.0.0.0/16", "10.0.0.1", "10.1.0.0/24", "*"]) if rt == "subnet" else self.pick(["a", "*", "a,b", "b"])
            proto = self.pick(["http", "*", "tcp", "HTTP", "Kafka"])
            tree = self.pick([None, ["cond", "true", "EQ", "x", {}], ["cond", "false", "EQ", "x", {}], self.doc_cond(a["doc"])])
            if tree and tree[1].startswith("jsonpath") and self.p(.5):
                tree[4] = self.abs_returns(a["doc"])
            ev.append(self.load("r%d" % i, self.rule(tree, st=st, sn=sn, rt=rt, rn=rn, proto=proto, rest=self.pick(["path", "*", "topic", "port"]),
                                                     resn=self.pick(["/x", "*", "80", "/*", "443"]) if proto == "tcp" else self.pick(["/x", "*", "/*", "/y"]),
                                                     oper=self.pick(["GET", "*", "read", "write", "POST"]),
                                                     dec=self.pick(["allow", "alert", "block", "BLOCK", "Alert", "Block", "Allow", "ALLOW", "ALERT", "aLLow", "", "ok"]))))
            hs.append("r%d" % i)
        for h in hs:
            ev.append(self.one(h, "m"))
        ev.append(self.check(hs, "m"))
        return ev

    def C03(self):
        ev, hs = [], []
        where = self.pick(["sn", "rn", "host", "resn", "oper", "port", "resn"])
        pats = [self.pattern_list() for _ in range(4)]
        for i, pat in enumerate(pats):
            kw = {"sn": dict(st=self.pick(["workload", "*"]), sn=pat), "rn": dict(rt=self.pick(["workload", "*"]), rn=pat),
                  "host": dict(rt="hostname", rn=pat), "resn": dict(proto="http", rest="path", resn=pat), "oper": dict(oper=pat),
                  "port": dict(proto="tcp", rest="port", resn=pat)}[where]
            ev.append(self.load("r%d" % i, self.rule(**kw)))
            hs.append("r%d" % i)
        field = {"sn": "ssvc", "rn": "dsvc", "host": "host", "resn": "path", "oper": "method", "port": "port"}[where]
        for i in range(6):
            v = self.pick(self.NAMES)
            if self.p(.5):      # a value made from one of the patterns
                it = self.pick(self.pick(pats).split(",")).replace(" ", "")
                v = "".join(self.pick(["", "x", "yz", "."]) if c == "*" else self.pick("axyz.") if c == "?" else c for c in it)
                if self.p(.3):
                    v = self.pick([v + "x", "x" + v, v[1:], v[:-1], v.upper(), v.replace(".", "x", 1), v + "\n"[:0]])
            ev.append(self.msg("m%d" % i, self.attrs(**{field: v})))
            ev.append(self.check(hs, "m%d" % i))
        return ev

    def ip4(self):
        return ".".join(self.pick(["0", "1", "10", "127", "128", "192", "254", "255"]) for _ in range(4))

    def ip6(self):
        x = self.r.random()
        if x < .3:
            return self.pick(["::1", "::", "fe80::1", "2001:db8::1", "2001:db8::ff00:42:8329"])
        g = [self.pick(["0", "1", "ff", "abcd", "8000", "2001", "db8", "FF0"]) for _ in range(8)]
        if x < .6:
            return ":".join(g)
        i, j = sorted(self.r.sample(range(8), 2))
        return ":".join(g[:i]) + "::" + ":".join(g[j:][:7 - i])

    def near(self, cidr):
        """an address near the border of the range"""
        import ipaddress
        net = ipaddress.ip_network(cidr, strict=False)
        lo, hi = int(net.network_address), int(net.broadcast_address)
        x = self.pick([lo, hi, lo - 1, hi + 1, (lo + hi) // 2, lo + 1])
        x = max(0, min(x, (1 << net.max_prefixlen) - 1))
        y = (ipaddress.IPv4Address if net.version == 4 else ipaddress.IPv6Address)(x)
        s = str(y)
        return s if "." not in s or net.version == 4 else "::1"

    def C04(self):
        ev, hs = [], []
        cidrs, singles = [], []
        for i in range(3):
            items = []
            for _ in range(self.pick([1, 1, 2, 3]) if not self.big else self.r.randrange(4, 9)):
                x = self.r.random()
                if x < .2:
                    singles.append(self.ip4())
                    items.append(singles[-1])
                elif x < .6:
                    cidrs.append(self.ip4() + "/%d" % self.pick([0, 1, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 30, 31, 32]))
                    items.append(cidrs[-1])
                elif x < .65:
                    singles.append(self.ip6())
                    items.append(singles[-1])
                elif x < .85:
                    cidrs.append(self.ip6() + "/%d" % self.pick([0, 1, 15, 16, 17, 32, 48, 63, 64, 65, 100, 127, 128]))
                    items.append(cidrs[-1])
                elif x < .92:
                    items.append("*")
                else:
                    items.append(self.pick(["10.0.0", "10.0.0.256", "abc", "", "10.0.0.0/33", "10.0.0.0/-1", "1.2.3.4/", "::/129", "svc.*", " 10.0.0.1", "10.0.0.1 ", "10.0.0.0/8/8", "01.2.3.4"]))
            side = self.pick("sr")
            kw = dict(st="subnet", sn=",".join(items)) if side == "s" else dict(rt="subnet", rn=",".join(items))
            h = "r%d" % i
            ev.append(self.load(h, self.rule(**kw)))
            ev.append({"op": "val", "h": h})
            if self.p(.5):
                ev.append({"op": "setp", "h": h, "p": {"s": [], "l": []}})
            hs.append(h)
        for i in range(6):
            def addr():
                x = self.r.random()
                try:
                    if cidrs and x < .6:
                        return self.near(self.pick(cidrs))
                except ValueError:
                    pass
                if singles and x < .75:
                    return self.pick(singles)
                return self.pick([self.ip4(), self.ip6(), "", "abc", "10.0.0.1/32", "0.0.0.0"])
            ev.append(self.msg("m%d" % i, self.attrs(sip=addr(), dip=addr())))
            ev.append(self.check(hs, "m%d" % i))
        return ev

    def C05(self):
        verbs = ["GET", "HEAD", "OPTIONS", "TRACE", "read", "READ", "POST", "PUT", "DELETE", "PATCH", "write", "WRITE", "get", "post", "", "GETX", "XGET",
                 "CONNECT", "Read", "PUTS", "Write"]
        base = [v for v in verbs if v]
        verbs += [v + self.pick(["X", "S", " ", "-1", "read"]) for v in self.r.sample(base, 5)] + [self.pick(["X", "S", "-", "re"]) + v for v in self.r.sample(base, 5)]
        verbs += [v[:-1] for v in self.r.sample(base, 3)] + [v.capitalize() for v in self.r.sample(base, 3)] + [v.lower() for v in self.r.sample(base, 3)]
        ev, hs = [], []
        for i, op in enumerate(self.r.sample(["read", "READ", "write", "WRITE", "*", "GET", "read,write", "GET,POST", "P*", "Read", "GE?", "Write", "read, POST", "*T", "PUT"], 6)):
            ev.append(self.load("r%d" % i, self.rule(oper=op, dec=self.pick(["allow", "block", "alert"]))))
            hs.append("r%d" % i)
        for i, v in enumerate(self.r.sample(verbs, 8)):
            ev.append(self.msg("m%d" % i, self.attrs(method=v)))
            ev.append(self.check(hs, "m%d" % i))
        return ev

    def C06(self):
        ev, hs = [], []
        for i in range(5):
            proto = self.pick(["tcp", "TCP", "*", "http", "HTTP", "Http", "kafka", "", "Tcp"])
            ev.append(self.load("r%d" % i, self.rule(proto=proto, rest=self.pick(["*", "path", "port", "kafkaTopic", "", "Path"]),
                                                     resn=self.pick(["/a", "/a/*", "*", "80", "8?", "443,80", "/a,/b", "topic1", ""]))))
            hs.append("r%d" % i)
        for i in range(6):
            ev.append(self.msg("m%d" % i, self.attrs(proto=self.pick(["tcp", "TCP", "http", "HTTP", "Http", "kafka", "KAFKA", "", "*", "httpx"]),
                                                     ptype=self.pick(["path", "port", "kafkaTopic", "", "Path", "*"]),
                                                     path=self.pick(["/a", "/a/b", "/b", "80", "topic1", "", "/A"]), port=self.pick(["80", "8080", "443", "/a", "", "81"]))))
            ev.append(self.check(hs, "m%d" % i))
        return ev

    def C07(self):
        a = self.attrs(doc=self.doc())
        ev = []
        for j in range(2):
            ev.append(self.msg("m%d" % j, a if j == 0 else self.attrs(doc=self.variant(a["doc"])), self.mode()))
        truths = [["cond", "true", "EQ", "x", {}], ["cond", "false", "EQ", "x", {}]]
        style = self.p(.5)
        ret = self.p(.4)                    # conditions that return values as well

        def leaf():
            c = self.pick(truths) if style else self.leaf(a, a["doc"])
            if ret and self.p(.5):
                c = c[:4] + [self.abs_returns(a["doc"])]
            return c
        for i in range(3):
            t = None if self.p(.06) else self.bool_tree(self.pick([1, 2, 3, 4]) if style else self.pick([1, 2, 3]), leaf)
            h = "r%d" % i
            ev.append(self.load(h, self.rule(t)))
            for j in range(2):
                ev.append(dict(self.test(h, "m%d" % j), op="testf"))
            ev.append(dict(self.one(h, "m0"), op="onef"))
        return ev

    def C08(self):
        if self.p(.15):
            return self.deep_case()
        if self.p(.15):
            return self.map_case()
        if self.p(.4):
            return self.nest_case(False)
        doc = self.doc()
        while not self.collections(doc):
            doc = self.doc()
        mix = A([self.item() for _ in range(self.r.randrange(1, 4))])
        a = self.attrs(doc=O({**{p["k"]: p["v"] for p in doc["v"]}, "mix": mix}))
        mode = self.mode()
        ev = [self.msg("m0", a, mode), self.msg("m1", self.attrs(doc=self.variant(doc)), self.mode()), self.msg("m2", self.attrs(), "raw")]
        for i in range(4):
            q = self.quant(doc, None, self.pick([0, 1, 2]), a)
            if self.p(.06):
                m = self.pick(["EQ", "NEQ", "LT", "GE", "RE", "IN", "NIN"])
                q = [self.pick(["any", "all"]), "jsonpath:$.mix" + self.pick(["[:]", "[*]", ""]), {}, ["cond", "jsonpath:$RELATIVE", m, self.value_for(m, self.pick(mix["v"])), {}]]
            elif self.p(.3):
                q = self.bool_tree(1, lambda: self.quant(doc, None, 1, a) if self.p(.7) else self.doc_cond(doc))
            h = "r%d" % i
            ev.append(self.load(h, self.rule(q)))
            ev.append(self.test(h, "m0"))
            ev.append(self.test(h, self.pick(["m0", "m1", "m1", "m2"])))
        return ev

    def C09(self):
        self.mixing = self.p(.3)
        doc = self.doc()
        mode = self.pick(["raw", "parsed", "pretty"])
        ev = [self.msg("m0", self.attrs(doc=doc), mode), self.msg("m1", self.attrs(doc=self.variant(doc)), mode), self.msg("m2", self.attrs(), "raw")]
        for i in range(5):
            c = self.doc_cond(doc, composite=mode != "pretty" and self.p(.3), methods=self.pick([None, ["EQ", "NEQ", "NE", "GT", "LE", "GE", "LT", "EX", "NEX"]]))
            h = "r%d" % i
            ev.append(self.load(h, self.rule(c)))
            for j in self.r.sample([0, 0, 1, 2], 2):
                ev.append(self.test(h, "m%d" % j))
        return ev

    UNITS = ["%", "m", "K", "M", "G", "T", "P", "E", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "e3", "e6", "e9", "e12", "e15", "e18"]
    FACT = {"%": (-2, 0), "m": (-3, 0), "K": (3, 0), "M": (6, 0), "G": (9, 0), "T": (12, 0), "P": (15, 0), "E": (18, 0), "e3": (3, 0), "e6": (6, 0),
            "e9": (9, 0), "e12": (12, 0), "e15": (15, 0), "e18": (18, 0), "Ki": (0, 10), "Mi": (0, 20), "Gi": (0, 30), "Ti": (0, 40), "Pi": (0, 50), "Ei": (0, 60)}

    PLAIN = ["0", "1", "2", "3", "10", "99", "100", "512", "1000", "1023", "1024", "1025", "4096", "0.5", "1.5", "2.25", "-1", "-0.5", "12345", "0.001", "1000000", "1048576", "16777216", "123456789012", "0.00001", "-2500000"]

    def number(self):
        x = self.r.random()
        m = self.pick(["0", "1", "2", "3", "10", "99", "100", "512", "1000", "1023", "1024", "1025", "4096", "0.5", "1.5", "2.25", ".5", "-1", "-0.5", "+3", "12345", "0.001", "7.", "1000000", "1048576", "16777216", "123456789012", "0.00001", "-2500000"])
        if x < .3:
            return m
        u = self.pick(self.UNITS)
        return m + u

    @staticmethod
    def exact(t):
        from fractions import Fraction
        f = Fraction(1)
        for u in ["%", "e3", "e6", "e9", "e12", "e15", "e18", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "K", "M", "G", "T", "P", "E", "m"]:
            if t.endswith(u) and t.count(u) == 1:
                d, b = G.FACT[u]
                f = Fraction(10) ** d * 2 ** b
                t = t.replace(u, "")
                break
        import re
        if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", t):
            return None
        return Fraction(t if not t.endswith(".") else t[:-1]) * f

    @staticmethod
    def approx(t):
        """the same value in floating point as a product of literal and factor"""
        f = 1.0
        for u in ["%", "e3", "e6", "e9", "e12", "e15", "e18", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "K", "M", "G", "T", "P", "E", "m"]:
            if t.endswith(u) and t.count(u) == 1:
                d, b = G.FACT[u]
                f = float("1e%d" % d) if b == 0 else float(2 ** b)
                t = t.replace(u, "")
                break
        return float(t) * f

    def same_order(self, s, t):
        """binary floating point orders s and t like the exact values"""
        a, b = self.exact(s), self.exact(t)
        if a is None or b is None:
            return True
        x, y = self.approx(s), self.approx(t)
        return (a < b, a == b) == (x < y, x == y)

    def C10(self):
        ev = []
        vals, rules = [], []
        for i in range(4):
            vals.append(self.number())
        base = self.pick(vals)
        e = self.exact(base)
        if e is not None and self.p(.6):     # the same number written differently
            for u in self.r.sample(self.UNITS, len(self.UNITS)):
                q = e / self.exact("1" + u)
                if q.denominator in (1, 2, 4, 5, 10, 100, 1000) and abs(q) < 10 ** 9:
                    t = "%d" % q if q.denominator == 1 else ("%.6f" % float(q)).rstrip("0")
                    if self.exact(t + u) == e:
                        vals.append(t + u)
                        break
        bad = ["1KK", "1 K", "K", "1Kib", "--1", "1e", "abc", "1%%", "1mm", "5x", "e3", "1KiB", "10k", "1g", "Mi"]
        doc = O({"k%d" % i: (N(v) if v in self.PLAIN and self.p(.6) else S(v))
                 for i, v in enumerate(vals + [self.pick(bad)])})
        mode = self.mode()
        ev.append(self.msg("m", self.attrs(doc=doc, size=self.pick(["0", "100", "1000", "1024", "1048576", "1500", "5000000000"])), mode))
        size = ev[0]["a"]["size"]
        for i in range(8):
            m = self.pick(["GE", "GT", "LE", "LT", "EQ", "NEQ", "NE"])
            if self.p(.2):
                v = self.number() if self.p(.8) or m not in ("EQ", "NEQ") else self.pick(bad)
                if self.p(.3):
                    v = size
                if not self.same_order(size, v):
                    continue
                c = ["cond", "payloadSize", self.case(m), v, {}]
            else:
                j = self.r.randrange(len(doc["v"]))
                x = doc["v"][j]["v"]["v"]
                v = self.pick(vals) if self.p(.6) else self.number()
                if m in ("EQ", "NEQ") and self.p(.1):
                    v = self.pick(bad + [x])
                if not self.same_order(x, v):
                    continue
                c = ["cond", "jsonpath:$." + doc["v"][j]["k"], self.case(m), v, {}]
            ev.append(self.load("r%d" % i, self.rule(c)))
            ev.append(self.test("r%d" % i, "m"))
        return ev

    def C11(self):
        doc = self.doc()
        a = self.attrs(doc=doc)
        ev = [self.msg("m0", a, self.pick(["raw", "parsed", "pretty"])), self.msg("m1", self.attrs(doc=self.variant(doc)), self.mode())]
        ms = ["RE", "NRE", "IN", "NIN", "IS"]
        for i in range(6):
            if self.p(.65):
                path, v = self.target(doc)
                if v is not None and v["t"] in "ao":
                    path, v = path + ("zz",), None
                m = self.pick(ms)
                c = ["cond", "jsonpath:$" + self.render(path), self.case(m), self.regex(v["v"] if v else "") if m in ("RE", "NRE") else self.value_for(m, v), {}]
            else:
                c = self.attr_cond(a)
                while c[2].upper() not in ms or c[3].startswith(("$", "receiverLabel")):
                    c = self.attr_cond(a)
            if c[2].upper() in ("IN", "NIN", "IS") and self.p(.2):     # items are regular expressions
                x = self.regex(v["v"] if c[1].startswith("jsonpath:") and v else self.pick(["web", "abc", "ns1"]))
                if not set("[],") & set(x):
                    c[3] = ",".join(self.r.sample([c[3].strip("[]"), x], 2))
            ev.append(self.load("r%d" % i, self.rule(c)))
            ev.append(self.test("r%d" % i, self.pick(["m0", "m0", "m1"])))
        return ev

    def regex(self, t):
        """a regular expression, half of the time built around the text t"""
        def atom():
            return self.pick(["a", "b", "c", ".", "[a-c]", "[^a]", "\\d", "\\w", "(ab)", "x", "[0-9]", "(a|b)", "\\.", "(?:bc)", "[A-Z]", "o"])

        def piece():
            return atom() + self.pick(["", "", "", "", "*", "+", "?", "{2}", "{1,}", "{0,1}", "{1,2}", "*?", "{,2}"])
        if t and self.p(.5) and all(c.isalnum() or c in " -/" for c in t):
            i = self.r.randrange(len(t))
            j = self.r.randrange(i, len(t)) + 1
            core = t[i:j]
            if self.p(.4):
                k = self.r.randrange(len(core))
                core = core[:k] + self.pick([".", ".*", "[a-z]", "[^0-9]", core[k] + "+", core[k] + "?"]) + core[k + 1:]
            return self.pick(["", "^"]) + core + self.pick(["", "$"])
        s = "".join(piece() for _ in range(self.r.randrange(1, 4)))
        if self.p(.2):
            s += "|" + piece()
        return self.pick(["", "", "^"]) + s + self.pick(["", "", "$"])

    def C12(self):
        a = self.attrs()
        ev = [self.msg("m0", a), self.msg("m1", self.attrs())]
        for i in range(8):
            ev.append(self.load("r%d" % i, self.rule(self.attr_cond(a))))
            ev.append(self.test("r%d" % i, "m0"))
            ev.append(self.test("r%d" % i, "m1"))
        return ev

    def C13(self):
        if self.p(.1):
            return self.deep_case(True)
        if self.p(.1):
            return self.map_case(True)
        if self.p(.4):
            return self.nest_case(True)
        doc = self.doc()
        while not self.collections(doc):
            doc = self.doc()
        a = self.attrs(doc=doc)

        def leaf():
            x = self.r.random()
            if x < .5:
                return self.quant(doc, None, self.pick([0, 0, 1]), a, returns=self.p(.85))
            c = self.doc_cond(doc)
            if x < .85:
                c[4] = self.abs_returns(doc)
            return c
        ev = [self.msg("m0", a, self.mode()), self.msg("m1", self.attrs(doc=self.variant(doc)), self.mode())]
        hs = []
        for i in range(3):
            t = self.bool_tree(self.pick([0, 0, 1, 1, 2]), leaf)
            h = "r%d" % i
            ev.append(self.load(h, self.rule(t, sn=self.pick(["*", "*", "*", "nope"]), dec=self.pick(["block", "allow", "alert", "other"]))))
            hs.append(h)
            ev.append(self.test(h, "m0"))
            ev.append(self.one(h, "m0"))
        ev.append(self.check(hs, "m0"))
        ev.append(self.check(hs, "m1"))
        return ev

    # ------------------------------------------------------ predefined sets
    def pset(self):
        s = {k: self.pick(["abc", "svc.a", "svc.*", "10.0.0.0/8", "5", "web", "^a", "10.0.0.1,10.0.0.9", "ns1"]) for k in self.r.sample(["s1", "s2", "both", "n1"], self.r.randrange(0, 4))}
        ls = {}
        for k in self.r.sample(["l1", "l2", "both"], self.r.randrange(0, 4)):
            items = [self.pick(["abc", "svc.a", "x", "web", "10.0.0.1", "ns1", "^ab", "svc.b", "5"]) for _ in range(self.size(4, 1))]
            if s and self.p(.4):
                items[self.r.randrange(len(items))] = "#" + self.pick(sorted(s))
            if self.p(.06):
                items.append("#missing")
            ls[k] = items
        return {"s": [{"k": k, "v": v} for k, v in sorted(s.items())], "l": [{"k": k, "v": v} for k, v in sorted(ls.items())]}

    def ref_rule(self, a):
        refs = ["#s1", "#s2", "#l1", "#l2", "#both", "#n1", "#nope"]
        kw = {}
        x = self.r.random()
        if x < .35:
            kw = dict(st=self.pick(["workload", "subnet", "*"]), sn=self.pick(refs))
        elif x < .6:
            kw = dict(rt=self.pick(["workload", "subnet", "hostname", "*"]), rn=self.pick(refs))
        t = None
        if x > .5:
            def leaf():
                if self.p(.25):
                    return self.leaf(a, a["doc"])
                m = self.pick(["EQ", "NEQ", "IN", "NIN", "RE", "NRE", "IN", "RE", "EX", "IS"])
                at = self.pick(["requestUseragent", "jsonpath:$.a", "jsonpath:$.b", "domain", "$sender.namespace", "senderLabel[app]", "receiverLabel[tier]"])
                return ["cond", at, self.case(m), self.pick(refs), {}]
            t = self.bool_tree(self.pick([0, 0, 1, 2]), leaf)
            if self.p(.15):
                m = self.pick(["EQ", "IN", "RE"])
                t = [self.pick(["any", "all"]), "jsonpath:$.c[:]", {}, ["cond", "jsonpath:$RELATIVE", m, self.pick(refs), {}]]
        return self.rule(t, **kw)

    def ref_attrs(self):
        d = O({"a": S(self.pick(["abc", "x", "5", "web"])), "b": self.pick([S("svc.a"), N("5"), S("ns1")]), "c": A([S(self.pick(["abc", "x", "web"])) for _ in range(2)])})
        return self.attrs(doc=d, ssvc=self.pick(["svc.a", "svc.b", "abc", "x"]), dsvc=self.pick(["svc.a", "abc", "web"]), host=self.pick(["abc", "svc.a"]),
                          sip=self.pick(["10.0.0.1", "10.0.0.9", "11.0.0.1"]), dip=self.pick(["10.0.0.1", "10.2.0.9", "11.0.0.1"]))

    def prep(self, h, p=None):
        """preparation in place; once per rule"""
        return {"op": "prep", "h": h, "p": p or {"s": [], "l": []}, "via": self.pick(["rule", "list"])}

    def C14(self):
        a = self.ref_attrs()
        ev = [self.msg("m0", a, self.mode()), self.msg("m1", self.ref_attrs(), self.mode())]
        g = self.pset()
        if self.p(.5):
            ev.append({"op": "setg", "p": g})
        hs = []
        for i in range(3):
            r = self.ref_rule(a)
            h = "r%d" % i
            x = self.r.random()
            if x < .3:
                ev.append(self.load(h, r, self.pick(["yamlp", "filep"]), self.pset()))
            else:
                ev.append(self.load(h, r))
                if x < .65:
                    ev.append({"op": "setp", "h": h, "p": self.pset()})
                elif x < .85:
                    ev.append(self.prep(h, self.pset()))
            hs.append(h)
            ev.append(self.one(h, self.pick(["m0", "m1"])))
            ev.append(self.test(h, self.pick(["m0", "m1"])))
        ev.append(self.check(hs, "m0"))
        return ev

    def C15(self):
        a = self.ref_attrs()
        ev = [self.msg("m0", a, self.mode()), self.msg("m1", self.ref_attrs(), self.mode())]
        sets = [self.pset() for _ in range(3)]
        hs = []
        for i in range(2):
            h = "r%d" % i
            r = self.ref_rule(a)
            if self.p(.2):
                ev.append(self.load(h, r, "yamlp", self.pick(sets)))
            else:
                ev.append(self.load(h, r))
            hs.append(h)
        for _ in range(self.r.randrange(8, 16)):
            k = self.pick(["setg", "setg", "setp", "setp", "one", "test", "check", "check", "one", "copy", "low", "val", "cov", "mongo", "rt", "snap"])
            h = self.pick(hs)
            m = self.pick(["m0", "m1"])
            if k == "setg":
                ev.append({"op": "setg", "p": self.pick(sets)})
            elif k == "setp":
                ev.append({"op": "setp", "h": h, "p": self.pick(sets)})
            elif k == "one":
                ev.append(self.one(h, m))
            elif k == "test":
                ev.append(self.test(h, m))
            elif k == "check":
                ev.append(self.check([self.pick(hs) for _ in range(self.r.randrange(1, 3))] if self.p(.3) else hs[:], m))
                if len(set(ev[-1]["hs"])) < len(ev[-1]["hs"]):
                    ev[-1]["hs"] = sorted(set(ev[-1]["hs"]))
            elif k == "copy":
                to = "r%d" % self.r.randrange(4)
                if to != h:
                    ev.append({"op": "copy", "h": h, "to": to})
                    if to not in hs:
                        hs.append(to)
            elif k == "cov":
                ev.append({"op": "cov", "hs": hs[:], "ms": ["m0", "m1"]})
            elif k == "mongo":
                ev.append({"op": "mongo", "h": h, "base": "", "docs": []})
            elif k == "rt":
                to = "r%d" % self.r.randrange(4)
                ev.append({"op": "rt", "h": h, "to": to, "fmt": self.pick(["json", "bson", "jsonlist"])})
                if to not in hs:
                    hs.append(to)
            elif k == "snap":
                ev.append({"op": "snap", "h": h})
            else:
                ev.append({"op": k, "h": h})
        # a handle whose source did not load has no later events; see the driver
        return ev

    def C16(self):
        if self.p(.1):
            return self.deep_case(self.p(.5))
        if self.p(.1):
            return self.map_case(self.p(.5))
        if self.p(.4):
            return self.nest_case(self.p(.5))
        doc = self.doc()
        a = self.attrs(doc=doc)
        ev = [self.msg("m%d" % i, a, mode) for i, mode in enumerate(["raw", "pretty", "parsed"])]

        def leaf():
            x = self.r.random()
            if x < .5 and self.collections(doc):
                return self.quant(doc, None, self.pick([0, 1, 1]), a, returns=self.p(.4))
            c = self.doc_cond(doc)
            if x > .8:
                c[4] = self.abs_returns(doc)
            return c
        for i in range(3):
            h = "r%d" % i
            ev.append(self.load(h, self.rule(self.bool_tree(self.pick([0, 0, 1, 2]), leaf))))
            for j in range(3):
                ev.append(self.test(h, "m%d" % j))
        return ev

    def C17(self):
        doc = self.doc()
        a = self.attrs(doc=doc)
        ev = [self.msg("m0", a, self.mode()), self.msg("m1", self.attrs(doc=self.variant(doc)), self.mode())]
        hs = []

        def leaf():
            x = self.r.random()
            if x < .4 and self.collections(doc):
                return self.quant(doc, None, self.pick([0, 1, 2]), a, returns=self.p(.4))
            return self.leaf(a, doc)
        for i in range(2):
            h = "r%d" % i
            ev.append(self.load(h, self.rule(self.bool_tree(self.pick([0, 1, 2]), leaf), meta=[{"k": "description", "v": "x"}])))
            ev.append({"op": "snap", "h": h})
            hs.append(h)
        ev += [{"op": "msnap", "m": "m0"}, {"op": "msnap", "m": "m1"}]
        for _ in range(self.r.randrange(6, 12)):
            k = self.pick(["one", "test", "check", "check", "val", "mongo", "hash", "rt", "cov", "snap", "msnap"])
            h, m = self.pick(hs), self.pick(["m0", "m1"])
            if k == "one":
                ev.append(self.one(h, m))
            elif k == "test":
                ev.append(self.test(h, m))
            elif k == "check":
                ev.append(self.check(hs[:], m))
            elif k == "mongo":
                ev.append({"op": "mongo", "h": h, "base": "", "docs": []})
            elif k == "hash":
                ev.append({"op": "hash", "h": hs[0], "to": hs[1]})
            elif k == "rt":
                ev.append({"op": "rt", "h": h, "to": "q", "fmt": self.pick(["json", "bson", "jsonlist"])})
            elif k == "cov":
                ev.append({"op": "cov", "hs": hs[:], "ms": ["m0", "m1"]})
            elif k == "msnap":
                ev.append({"op": "msnap", "m": m})
            else:
                ev.append({"op": k, "h": h})
        ev += [{"op": "snap", "h": h} for h in hs] + [{"op": "msnap", "m": "m0"}, {"op": "msnap", "m": "m1"}]
        return ev

    def C18(self):
        doc = self.doc()
        while not self.collections(doc):
            doc = self.doc()
        a = self.attrs(doc=doc)
        ms = ["m0", "m1", "m2", "m3"]
        ev = [self.msg("m0", a, self.mode())] + [self.msg(x, self.attrs(doc=self.variant(doc) if self.p(.7) else doc), self.mode()) for x in ms[1:]]
        if self.p(.5):
            ev.append({"op": "setg", "p": self.pset()})
        hs = []

        def leaf():
            x = self.r.random()
            if x < .5:
                return self.quant(doc, None, self.pick([0, 1, 2]), a, returns=self.p(.5))
            return self.leaf(a, doc)
        for i in range(4):
            h = "r%d" % i
            r = self.ref_rule(a) if self.p(.25) else self.rule(self.bool_tree(self.pick([1, 2, 2]), leaf), dec=self.pick(["allow", "alert", "block"]))
            ev.append(self.load(h, r))
            if self.p(.5):
                ev.append({"op": "setp", "h": h, "p": self.pset()})
            hs.append(h)
        ev.append({"op": "conc", "hs": hs, "ms": ms, "n": "8", "reps": "12"})
        for x in ms:
            ev.append(self.check(hs, x))
        return ev

    def C19(self):
        doc = self.doc()
        a = self.attrs(doc=doc)
        ev = [self.msg("m0", a, self.mode()), self.msg("m1", self.attrs(doc=self.variant(doc)), self.mode())]

        def leaf():
            x = self.r.random()
            if x < .45 and self.collections(doc):
                return self.quant(doc, None, self.pick([0, 1]), a, returns=self.p(.5))
            c = self.leaf(a, doc)
            if c[1].startswith("jsonpath") and self.p(.4):
                c[4] = self.abs_returns(doc)
            return c
        ref = self.p(.25)
        if ref:
            r = self.ref_rule(a)
        else:
            r = self.rule(self.bool_tree(self.pick([0, 1, 2]), leaf) if self.p(.9) else None, st=self.pick(["*", "workload", "subnet"]), sn="*",
                          proto=self.pick(["*", "http"]), rest="path", resn=self.pick(["/x", "/*"]), oper=self.pick(["read", "*", "GET"]),
                          dec=self.pick(["allow", "block", "ALERT"]))
        r["meta"] = self.pick([[], [{"k": "description", "v": "some text"}], [{"k": "a", "v": "1"}, {"k": "b", "v": "x y"}]])
        ev.append(self.load("r0", r))
        pre = self.pick(["none", "use", "set", "prep"])
        sets = [self.pset(), self.pset()]
        if pre == "use":
            ev.append(self.one("r0", "m0"))
        elif pre == "set":
            ev.append({"op": "setp", "h": "r0", "p": sets[0]})
        elif pre == "prep":
            ev.append(self.prep("r0", sets[0]))
        cur = "r0"
        for i in range(self.r.randrange(1, 4)):
            nxt = "q%d" % i
            ev.append({"op": "rt", "h": cur, "to": nxt, "fmt": self.pick(["json", "bson", "jsonlist"])})
            if self.p(.4):
                ev.append(self.one(nxt, "m0"))
            if self.p(.2):
                ev.append({"op": "setp", "h": nxt, "p": sets[1]})
            cur = nxt
        ev += [self.test(cur, "m0"), self.test(cur, "m1"), self.one(cur, "m1"), {"op": "hash", "h": "r0", "to": cur}, {"op": "val", "h": cur},
               self.check(["r0", cur], "m0")]
        return ev

    def C20(self):
        doc = self.doc()
        a = self.attrs(doc=doc)

        def leaf():
            if self.p(.2) and self.collections(doc):
                return self.quant(doc, None, 0, None, returns=self.p(.4))
            return self.leaf(a, doc)
        t = self.bool_tree(self.pick([0, 1, 2, 2]), leaf)
        base = dict(st=self.pick(["workload", "*"]), sn=self.pick(["a", "b,c", "svc.*"]), rt=self.pick(["workload", "hostname"]), rn=self.pick(["a", "x.y"]),
                    proto=self.pick(["http", "tcp"]), rest=self.pick(["path", "port"]), resn=self.pick(["/x", "/x/y", "80"]), oper=self.pick(["GET", "read"]),
                    dec=self.pick(["allow", "block"]))
        ev = [self.load("r0", self.rule(t, **base)), self.msg("m", a, self.mode())]
        for i in range(1, 6):
            t2, kw = self.vary(t), dict(base)
            if self.p(.5):
                k = self.pick(sorted(base))
                kw[k] = self.pick([base[k].upper(), base[k].lower(), base[k].capitalize(), base[k] + "x", self.pick(list(base.values()))])
            h = "r%d" % i
            kw["meta"] = self.pick([[], [{"k": "description", "v": "d%d" % i}]])
            ev.append(self.load(h, self.rule(t2, **kw)))
            if self.p(.3):
                ev.append(self.one(h, "m"))
            x = self.r.random()
            if x < .15:
                ev.append({"op": "low", "h": h})
            elif x < .35:
                ev.append(self.prep(h))
            ev.append({"op": "hash", "h": "r0", "to": h})
            if i > 1:
                ev.append({"op": "hash", "h": h, "to": "r%d" % (i - 1)})
        return ev

    def vary(self, t):
        """the tree with an irrelevant or a small relevant change"""
        import copy
        t = copy.deepcopy(t)
        k = self.pick(["same", "shuffle", "shuffle", "shuffle", "wrap", "change", "change", "swap", "dup", "order"])
        nodes = []

        def walk(n, set_):
            nodes.append((n, set_))
            if n[0] in ("and", "or"):
                for i in range(len(n[1])):
                    walk(n[1][i], lambda x, n=n, i=i: n[1].__setitem__(i, x))
            elif n[0] == "not":
                walk(n[1], lambda x, n=n: n.__setitem__(1, x))
            elif n[0] in ("any", "all"):
                walk(n[3], lambda x, n=n: n.__setitem__(3, x))
        box = [t]
        walk(t, lambda x: box.__setitem__(0, x))
        if k == "shuffle":
            for n, _ in nodes:
                if n[0] in ("and", "or"):
                    self.r.shuffle(n[1])
        elif k == "wrap":
            n, set_ = self.pick(nodes)
            set_([self.pick(["and", "or"]), [n]])
        elif k == "change":
            n, set_ = self.pick(nodes)
            if n[0] == "cond":
                i = self.pick([1, 2, 3])
                if i == 1 and n[1].startswith("jsonpath:") and not n[1].endswith(("$KEY", "$VALUE", "$RELATIVE")):
                    n[1] = n[1] + ".z"
                elif i == 2:
                    n[2] = {"EQ": "NEQ", "NEQ": "EQ", "RE": "NRE", "NRE": "RE", "IN": "NIN", "EX": "NEX", "NEX": "EX"}.get(n[2], n[2])
                else:
                    n[3] = self.pick(["5", "7"])
            elif n[0] in ("and", "or"):
                n[0] = "or" if n[0] == "and" else "and"
            elif n[0] in ("any", "all"):
                n[0] = "all" if n[0] == "any" else "any"
            elif n[0] == "not":
                set_(n[1])
        elif k == "swap" and len(nodes) > 2:
            n, set_ = self.pick(nodes)
            set_(["not", n])
        elif k == "dup":
            for n, _ in nodes:
                if n[0] in ("and", "or"):
                    n[1].append(copy.deepcopy(n[1][0]))
                    break
        elif k == "order":
            for n, _ in nodes:
                if n[0] in ("and", "or") and len(n[1]) > 1:
                    n[1].reverse()
        return box[0]

    # --------------------------------------------------------------- mongo
    MSTR = ["abc", "abd", "web", "db", "prod", "x y", "a/b"]
    MNUM = ["0", "1", "5", "10", "15.5", "-3", "100"]

    def mdoc(self):
        """documents with typed fields: s* text, n* numbers, o object, l list of objects, m map"""
        d = {}
        if self.p(.7):
            d["s1"] = S(self.pick(self.MSTR))
        if self.p(.7):
            d["n1"] = N(self.pick(self.MNUM))
        if self.p(.7):
            d["o"] = O({k: v for k, v in {"s2": S(self.pick(self.MSTR)), "n2": N(self.pick(self.MNUM)), "x-y": S(self.pick(self.MSTR))}.items() if self.p(.6)} or {"s2": S("abc")})
        if self.p(.8):
            d["l"] = A([self.mel(1) for _ in range(self.r.randrange(1, 4))])
        if self.p(.4):
            d["l2"] = A([self.mel(0) for _ in range(self.r.randrange(1, 3))])
        if self.p(.7):
            d["m"] = O({k: S(self.pick(self.MSTR)) for k in self.r.sample(["app", "tier", "env"], self.r.randrange(1, 3))})
        if self.p(.5):
            d["mo"] = O({k: O({"s4": S(self.pick(self.MSTR)), "n4": N(self.pick(self.MNUM))}) for k in self.r.sample(["p", "q"], self.r.randrange(1, 3))})
        return O(d or {"s1": S("abc")})

    def mel(self, depth):
        e = {}
        if self.p(.75):
            e["s3"] = S(self.pick(self.MSTR))
        if self.p(.75):
            e["n3"] = N(self.pick(self.MNUM))
        if self.p(.3):
            e["o3"] = O({"s2": S(self.pick(self.MSTR))})
        if depth and self.p(.6):
            e["l"] = A([self.mel(0) for _ in range(self.r.randrange(1, 3))])
        return O(e or {"s3": S("abc")})

    def mcond(self, pre, sfields, nfields):
        if self.p(.5):
            f = self.pick(sfields)
            m = self.pick(["EQ", "NEQ", "NE", "EX", "NEX", "RE", "NRE", "IN", "NIN", "IS"])
            v = self.pick(self.MSTR) if m in ("EQ", "NEQ", "NE") else ",".join(self.r.sample(["abc", "abd", "web", "prod"], 2)) if m in ("IN", "NIN", "IS") else \
                self.pick(["^a", "b$", "e", "^abc$", "a.c", "pro|we"]) if m in ("RE", "NRE") else ""
        else:
            f = self.pick(nfields)
            m = self.pick(["EQ", "NEQ", "NE", "GT", "GE", "LT", "LE", "EX", "NEX", "LT", "GE"])
            v = self.pick(self.MNUM) if m not in ("EX", "NEX") else ""
        return ["cond", pre + f, self.case(m), v, {}]

    def mtree(self):
        def el(depth, nested):
            def leaf():
                if depth and self.p(.25):
                    return [self.pick(["any", "all"]), "jsonpath:$RELATIVE.l" + self.pick(["[:]", "", "[*]"]), {}, self.bool_tree(self.pick([0, 1]), lambda: el(0, True)())]
                return self.mcond("jsonpath:$RELATIVE", [".s3", ".s3", ".o3.s2", '["s3"]'] if False else [".s3", ".s3", ".o3.s2"], [".n3"])
            return leaf

        def leaf():
            x = self.r.random()
            if x < .45:
                pre = self.pick(["jsonpath:$", "jsonpath:$", "jsonpath:"])
                return self.mcond(pre, [".s1", ".o.s2", '.o["x-y"]', ".m.app", ".l[0].s3", '.o."s2"', ".o['x-y']"], [".n1", ".o.n2", ".l[1].n3"])
            if x < .75:
                p = self.pick(["jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:.l[*]", "jsonpath:$.l[:]", "jsonpath:$.l[:],jsonpath:$.l2[:]", "jsonpath:$.l[:],$.l2[:]"])
                return [self.pick(["any", "all"]), p, {}, self.bool_tree(self.pick([0, 1, 1]), el(1 if "," not in p else 0, False))]
            if x < .9:
                if self.p(.5):
                    c = self.mcond("jsonpath:", ["$KEY", "$VALUE"], ["$X"])
                    while "$X" in c[1]:
                        c = self.mcond("jsonpath:", ["$KEY", "$VALUE"], ["$X"])
                    if c[2].upper() in ("NEX",):
                        c[2] = "EX"
                    return ["any", self.pick(["jsonpath:$.m", "jsonpath:.m"]), {}, c]
                return ["any", "jsonpath:$.mo", {}, self.mcond("jsonpath:$VALUE", [".s4"], [".n4"])]
            return self.munsup()
        return self.bool_tree(self.pick([0, 0, 1, 1, 2]), leaf)

    def munsup(self):
        """mostly trees without a translation, each at the border of what has one"""
        arr = self.pick(["jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:.l[*]", "jsonpath:.l", "jsonpath:$.l[:],$.l2[:]", "jsonpath:$.l,jsonpath:$.l2"])
        key = lambda: ["cond", self.pick(["jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.s4"]), self.pick(["EQ", "RE", "EX"]), "abc", {}]
        rel = lambda: self.mcond("jsonpath:$RELATIVE", [".s3"], [".n3"])
        q = lambda: self.pick(["any", "all"])
        y = self.r.randrange(12)
        if y == 0:
            return self.attr_cond(self.attrs())
        if y == 1:
            return [q(), self.pick(["jsonpath:$..l[:]", "jsonpath:$..l", "jsonpath:$.o..l[:]", "jsonpath:$.l[:],$..l[:]"]), {}, rel()]
        if y == 2:
            return [q(), arr, {}, self.mcond(self.pick(["jsonpath:$", "jsonpath:"]), [".s1"], [".n1"])]
        if y == 3:
            return [q(), arr, {}, ["cond", "jsonpath:$RELATIVE", self.pick(["EX", "EQ"]), "abc", {}]]
        if y == 4:
            return ["all", "jsonpath:$.m", {}, key()]
        if y == 5:
            return ["any", "jsonpath:$.m", {}, [self.pick(["and", "or"]), [key(), key()]]]
        if y == 6:
            return [q(), arr, {}, [q(), self.pick(["jsonpath:$.l2[:]", "jsonpath:.l2", "jsonpath:$.l2"]), {}, rel()]]
        if y == 7:
            return ["any", self.pick(["jsonpath:$.m,$.mo", "jsonpath:$.m,jsonpath:$.mo", "jsonpath:$.mo[:]", "jsonpath:$.mo[*]"]), {}, key()]
        if y == 8:
            return ["any", self.pick(["jsonpath:$.l", "jsonpath:$.mo"]), {}, ["any", self.pick(["jsonpath:$RELATIVE.o3", "jsonpath:$RELATIVE*", "jsonpath:$RELATIVE.l[:]"]), {}, key()]]
        if y == 9:
            return ["any", "jsonpath:$.m", {}, ["not", key()]]
        if y == 10:
            return key() if self.p(.5) else ["cond", "jsonpath:$..s1", "EQ", "abc", {}]
        return ["not", ["any", "jsonpath:$.l", {}, ["and", [rel(), self.mcond("jsonpath:$", [".s1"], [".n1"])]]]]

    def C21(self):
        ev = []
        docs = [self.mdoc() for _ in range(5)]
        for i in range(4):
            h = "r%d" % i
            t = self.mtree() if self.p(.95) else None
            ev.append(self.load(h, self.rule(t)))
            if self.p(.2):
                ev.append(self.one(h, "m") if False else {"op": "val", "h": h})
            ev.append({"op": "mongo", "h": h, "base": self.pick(["", "", "raw", "raw.doc"]), "docs": docs})
        return ev

    # ----------------------------------------------------------- malformed
    def C22(self):
        doc = self.doc()
        a = self.attrs(doc=doc)
        ev = []
        if self.p(.1):
            ev.append({"op": "nofile", "what": self.pick(["rules", "rules+lists", "lists", "messages"]), "name": self.pick(["missing.yaml", "no/such/place.yml", ""])})
        for i in range(6):
            def leaf():
                if self.p(.3) and self.collections(doc):
                    return self.quant(doc, None, self.pick([0, 1]), a, returns=self.p(.3))
                return self.bad_cond(self.leaf(a, doc)) if self.p(.35) else self.leaf(a, doc)
            raw = self.write(self.bool_tree(self.pick([0, 0, 1, 2]), leaf))
            if self.p(.5):
                raw = self.damage(raw)
            h = "r%d" % i
            r = self.rule(raw=raw)
            if self.p(.15):
                r.update(st="subnet", sn=self.pick(["10.0.0.0/8", "bad", "10.0.0.1,*", "10.0.0.300"]))
            ev.append(self.load(h, r, self.pick(["yaml", "yaml", "json", "file", "bson"])))
            ev.append({"op": "val", "h": h})
            if self.p(.3):
                ev.append({"op": "setp", "h": h, "p": {"s": [], "l": []}})
        return ev

    def bad_cond(self, c):
        c = list(c)
        k = self.r.randrange(12)
        if k == 0:
            c[1] = self.pick(["unknown", "payload", "jsonpath", "senderLabel", "Jsonpath:$.a", "$sender", "sender.namespace", "", "truee", "jsonpath:", "PayloadSize"])
        elif k == 1:
            c[2] = self.pick(["EQUALS", "=", "", "Eq", "is", "In", "GTE", "Ne", "eQ", "MATCH"])
        elif k == 2:
            c[1] = self.pick(["jsonpath:$.a[:]", "jsonpath:$.a[]", "jsonpath:$.a[-1]", "jsonpath:$.a[x]", "jsonpath:$.a[*]", "jsonpath:a.b", "jsonpath:$a", "jsonpath:$KEY.a",
                              "jsonpath:$.a[1", "jsonpath:$.a-b", "jsonpath:$.", "jsonpath:.", "jsonpath:$.a..b", "jsonpath:$RELATIVEx", "jsonpath:$.a['b']", "jsonpath:$.a[1.5]",
                              "jsonpath:$.a[0]", "jsonpath:$.a[01]", "jsonpath:$VALUE.a", "jsonpath:$RELATIVE[0]", "jsonpath:$.a]", "jsonpath:$.1a", "jsonpath:$.a[\"b\"].c"])
        elif k == 3:
            c[1:4] = [self.pick(["senderLabel[app]", "jsonpath:$.a", "payloadSize", "$sender.namespace", "domain"]), self.pick(["GT", "GE", "lt", "le"]),
                      self.pick(["abc", "5", "1Ki", "", "5x", "1K ", "--5", "1.5", "1e3"])]
        elif k == 4:
            c[1:4] = [self.pick(["domain", "jsonpath:$.a", "receiverLabel[app]"]), self.pick(["RE", "NRE", "re", "nre", "EQ"]),
                      self.pick(["(", "[a", "a**", "*a", "a{2}", "{2}", "a{2}{3}", "a{3,2}", "a{1001}", "a{", "a{x}", "a{2}?", "a*+", "(a", "a)", "[]", "\\", "a|b", "+", "?x", "^a$", "[b-a]", "(?:a)"])]
        elif k == 5:
            c[1:4] = [self.pick(["domain", "jsonpath:$.a", "receiverLabel[app]"]), self.pick(["IN", "NIN", "in", "nin", "IS"]),
                      self.pick(["", "a", "a,b", "[a,b]", "a,,b", "(", "[a,(b]"])]
        elif k == 6:
            c[1:4] = [self.pick(["senderLabel[app", "senderLabel[app]x", "senderLabel[]", "receiverLabel[a]b]", "senderLabel[a.b/c]", "receiverLabel[", "senderLabel["]),
                      self.pick(["EQ", "EX", "RE"]), "abc"]
        elif k == 7:
            c[1:4] = ["senderLabel[app]", "EQ", self.pick(["receiverLabel[app", "receiverLabel[app]x", "receiverLabel[app]", "receiverLabel["])]
        elif k == 8:
            c[1:4] = ["encryptionVersion", self.pick(["NEQ", "EX", "RE", "EQ", "gt", "IN", "NE", "le"]), self.pick(["1.2", "5"])]
        elif k == 9:
            c[3] = self.pick(["#ref", "#s1"])
        else:
            c[1:4] = [self.pick(["$sender.namespace", "$receiver.cluster", "$sender.x", "$receiver."]), self.pick(["EQ", "GT", "RE", "LE"]), self.pick(["abc", "5"])]
        return c

    def damage(self, x):
        """one structural change somewhere in the tree"""
        import copy
        x = copy.deepcopy(x)
        nodes, values = [], []

        def walk(n, set_):
            nodes.append((n, set_))
            if n["t"] == "o":
                for p in n["v"]:
                    if p["k"] in ("value", "Value"):
                        values.append(p["v"])
                    walk(p["v"], lambda y, p=p: p.__setitem__("v", y))
            elif n["t"] == "a":
                for i in range(len(n["v"])):
                    walk(n["v"][i], lambda y, n=n, i=i: n["v"].__setitem__(i, y))
        box = [x]
        walk(x, lambda y: box.__setitem__(0, y))
        n, set_ = self.pick(nodes)
        k = self.r.randrange(10)
        if any(n is w for w in values):
            if k in (0, 4, 5, 6):
                k = 8
        if k == 0:
            set_(self.pick([S("abc"), N("5"), B(True), A([]), O({}), A([S("x")]), O({"foo": S("bar")})]))
        elif k == 1 and n["t"] == "o" and n["v"]:
            n["v"].pop(self.r.randrange(len(n["v"])))
        elif k == 2 and n["t"] == "o":
            key = self.pick(["extra", "AND", "OR", "NOT", "value", "condition", "parentJsonpathAttribute", "returnValueJsonpath", "attribute"])
            if get(n, key) is None:
                n["v"].append({"k": key, "v": S("abc") if key == "value" else self.pick([S("abc"), A([]), O({}), O({"attribute": S("true"), "method": S("EQ"), "value": S("x")})])})
                n["v"].sort(key=lambda p: p["k"])
        elif k == 3 and n["t"] == "o" and n["v"]:
            p = self.pick(n["v"])
            new = self.pick(["and", "AND", "OR", "NOT", "ANY", "ALL", "condition", "conditions", "Condition", "XOR", "conditionsTree", p["k"] + "x", p["k"].lower(), p["k"].upper()])
            if get(n, new) is None:
                p["k"] = new
                n["v"].sort(key=lambda p: p["k"])
        elif k == 4:
            set_(A([n]))
        elif k == 5:
            set_(A([n, copy.deepcopy(n)]))
        elif k == 6:
            set_(O({self.pick(["AND", "OR", "NOT", "condition", "conditions", "ANY", "ALL", "foo", "conditionsTree"]): n}))
        elif k == 7 and n["t"] == "a" and n["v"]:
            n["v"].pop(self.r.randrange(len(n["v"])))
        elif k == 8 and n["t"] == "s":
            set_(S(self.pick(["", n["v"] + ("x" if n["v"][-1:].isalnum() else ""), n["v"][1:], "jsonpath:$.a", "jsonpath:$.a[:]", "jsonpath:$RELATIVE.a", "$.a[:]", "jsonpath:$", "jsonpath:$KEY"])))
        elif n["t"] == "a":
            n["v"].append(self.pick([S("x"), O({}), A([])]))
        if box[0]["t"] not in "oa":
            box[0] = A([box[0]])
        return box[0]

    # --------------------------------------------------------------- crash
    def C23(self):
        k = self.r.random()
        doc = self.doc()
        a = self.attrs(doc=doc)

        def leaf():
            if self.p(.45):
                return self.quant(doc, None, self.pick([0, 1, 2]), a, returns=self.p(.4))
            return self.bad_cond(self.leaf(a, doc)) if self.p(.3) else self.leaf(a, doc)
        ev = []
        if k < .15:
            t = self.messages_text()
            ev.append({"op": "crash", "kind": "messages", "text": self.mutate(t) if self.p(.8) else t, "docs": []})
        elif k < .25:
            t = "predefinedStrings:\n  s1: abc\n  s2: '#x'\npredefinedLists:\n  l1: [a, '#s1']\n  l2: []\n"
            ev.append({"op": "crash", "kind": "lists", "text": self.mutate(t), "docs": []})
        else:
            import json
            raw = self.write(self.bool_tree(self.pick([0, 1, 2]), leaf))
            for _ in range(self.pick([0, 1, 1, 2])):
                raw = self.damage(raw)
            r = self.rule(raw=raw, st=self.pick(["*", "workload", "subnet", "x"]), sn=self.pick(["*", "a", "#l", "#nope", "10.0.0.0/8", "(", "", "*("]), rn=self.pick(["*", "b", "#s"]),
                          proto=self.pick(["*", "", "tcp", "http"]), rest="*", resn=self.pick(["*", "", "(", "/x"]), oper=self.pick(["*", "", "GET", "["]))
            text = self.rule_text(r)
            if self.p(.3):
                text = self.mutate(text)
            docs = [self.jtext(doc), self.jtext(self.pick([self.scalar(), A([]), O({}), A([self.doc()]), self.shape(doc)])), self.mutate(self.jtext(doc)),
                    self.pick(["", "null", "{", "[1,[2,[3]]]", "{\"a\":null}", "\"x\"", "5", "[[{\"a\":1}],[{\"a\":2}]]", "{\"a\":{\"a\":{\"a\":[]}}}", "[null]", "{\"a\":[null,{\"b\":null}]}"]),
                    self.jtext(self.shape(doc))]
            ev.append({"op": "crash", "kind": "rules", "text": text, "docs": docs})
        return ev

    def shape(self, x):
        """the same keys with values of unexpected type"""
        if x["t"] == "o":
            return O({p["k"]: (self.shape(p["v"]) if self.p(.7) else self.pick([N("1"), S("s"), A([]), O({}), A([A([N("1")])]), A([N("1"), O({"a": S("q")})]), Z])) for p in x["v"]})
        if x["t"] == "a":
            return self.pick([A([self.shape(y) for y in x["v"]]), A([A([y]) for y in x["v"]]), O({"a": A(x["v"])}), S("x"), A(x["v"] + [N("1"), Z])])
        return self.pick([x, O({"a": x}), A([x]), Z])

    def jtext(self, x):
        import json
        t = x["t"]
        if t == "s":
            return json.dumps(x["v"])
        if t in "nb":
            return x["v"]
        if t == "a":
            return "[" + ",".join(self.jtext(y) for y in x["v"]) + "]"
        if t == "o":
            return "{" + ",".join(json.dumps(p["k"]) + ":" + self.jtext(p["v"]) for p in x["v"]) + "}"
        return "null"

    def rule_text(self, r):
        d = {"ruleID": S(r["id"]), "sender": O({"senderName": S(r["sn"]), "senderType": S(r["st"])}), "receiver": O({"receiverName": S(r["rn"]), "receiverType": S(r["rt"])}),
             "protocol": S(r["proto"]), "resource": O({"resourceType": S(r["rest"]), "resourceName": S(r["resn"])}), "operation": S(r["oper"]), "decision": S(r["dec"]), "conditions": r["cond"]}
        return self.jtext(O({"rules": A([O(d)])}))

    def messages_text(self):
        return ("messages:\n- message_id: '1'\n  sender_service: a\n  receiver_service: b\n  request_method: GET\n  request_path: /x\n  request_time: %s\n"
                "  sender_labels: %s\n  request_protocol: http\n  encryption_version: 1.2\n  json_raw: [1, 2]\n") % (
                    self.pick(["2018-07-29T14:30:00-07:00", "'x'", "2018-07-29"]), self.pick(["'{a:b}'", "'{a:b,c}'", "'{'", "'{a:{b:c}}'", "''"]))

    def mutate(self, t):
        for _ in range(self.pick([1, 1, 2, 4])):
            if not t:
                return t
            i = self.r.randrange(len(t))
            j = min(len(t), i + self.pick([1, 1, 2, 5, 20]))
            k = self.r.randrange(4)
            if k == 0:
                t = t[:i] + t[j:]
            elif k == 1:
                t = t[:i] + self.pick(list("{}[]\",:$.#*()\\' \n-0") + ["null", "[]", "{}", "$RELATIVE", "$KEY", "jsonpath:"]) + t[i:]
            elif k == 2:
                t = t[:i] + t[i:j] + t[i:]
            else:
                q = self.r.randrange(len(t))
                t = t[:i] + t[q:q + 8] + t[j:]
        return t

    # ------------------------------------------------------------ messages
    def C24(self):
        ms = []
        for i in range(self.size(5, 1, 16)):
            def lab():
                x = self.r.random()
                if x < .2:
                    return ""
                ks = self.r.sample(["app", "tier", "env", "a-b", "x.y/z"], self.r.randrange(1, 4))
                items = [k + self.pick([":", ": "]) + self.pick(["web", "db", "v1", "x-1", "1.2"]) for k in ks]
                return "{" + self.pick([",", ", "]).join(items) + "}"
            t = "%04d-%02d-%02dT%02d:%02d:%02d" % (self.pick([2018, 2020, 1999]), self.r.randrange(1, 13), self.r.randrange(1, 29), self.r.randrange(24), self.r.randrange(60), self.r.randrange(60))
            t += self.pick(["", "", ".5", ".25", ".125", "." + self.digits(6), "." + self.digits(9), "." + self.digits(self.r.randrange(1, 13))]) + self.pick(["Z", "-07:00", "+02:00", "+05:30", "Z"])
            if self.p(.07):
                t = self.pick(["", "2018-07-29", "2018-07-29T14:30:00", "2018-13-29T14:30:00Z", "2018-07-29 14:30:00Z", "2018-07-29T24:30:00Z", "2018-02-30T10:00:00Z", "noon",
                               "2018-07-29T14:60:00Z", "2018-07-29T14:30:00+7:00"])
            a = dict(id="m%d" % i, sip=self.pick(["", self.ip4(), self.ip6(), "abc"]), dip=self.pick(["", self.ip4(), self.ip6(), "10.0.0"]), ssvc=self.pick(["", "svc.a"]), dsvc=self.pick(["", "svc.b"]),
                     host=self.pick(["", "h.example.com:80"]), proto=self.pick(["", "http", "HTTP", "tcp", "TCP", "kafka", "Http", "Tcp"]), path=self.pick(["", "/x?y=1"]), port=self.pick(["", "8080"]),
                     method=self.pick(["", "GET"]), time=t, ua=self.pick(["", "curl 7"]), sns=self.pick(["", "ns1"]), dns=self.pick(["", "ns2"]), scl=self.pick(["", "c1"]), dcl=self.pick(["", "c2"]),
                     enct=self.pick(["", "TLS"]), dom=self.pick(["", "d"]), size=self.pick(["", "10", "5000000000"]), encv=self.pick(["", "1.2", "3"]), sl=lab(), dl=lab())
            ms.append(a)
        return [{"op": "msgload", "a": ms, "via": self.pick(["text", "file"])}]

    def C25(self):
        ev, hs, ms = [], [], []
        n = self.size(6, 0, 14)
        for i in range(n):
            h = "r%d" % i
            r = self.rule(self.pick([None, None, ["cond", "payloadSize", "GT", self.pick(["50", "500", "1500"]), {}]]), sn=self.pick(["*", "a", "b", "c", "a,b"]), oper=self.pick(["*", "GET", "POST"]),
                          dec=self.pick(["allow", "alert", "block", "other"]))
            if self.p(.1) and i:
                r["id"] = str(self.n - 1)
            ev.append(self.load(h, r))
            hs.append(h)
        for j in range(self.size(6, 0, 14)):
            name = "m%d" % j
            ev.append(self.msg(name, self.attrs(id="id%d" % (j if self.p(.9) else 0), ssvc=self.pick(["a", "b", "c"]), method=self.pick(["GET", "POST"]))))
            ms.append(name)
        ev.append({"op": "cov", "hs": hs, "ms": ms})
        if hs and ms:
            ev.append(self.check(hs, self.pick(ms)))
            ev.append({"op": "cov", "hs": hs[::-1], "ms": ms[::-1]})
        return ev

    def C27(self):
        doc = self.doc()
        a = self.attrs(doc=doc)

        def leaf():
            if self.p(.25) and self.collections(doc):
                return self.quant(doc, None, self.pick([0, 0, 1]), None, returns=self.p(.3))
            return self.leaf(a, doc)
        ev = [self.msg("m", a, self.mode())]
        for i in range(3):
            t = None if self.p(.15) else self.bool_tree(self.pick([0, 1, 2, 3]), leaf)
            h = "r%d" % i
            proto = self.pick(["http", "HTTP", "tcp", "*", "", "kafka"])
            rest, resn = self.pick([("path", "/x"), ("path", "/x/*"), ("port", "80"), ("port", "443"), ("port", "8080"), ("path", "/"), ("kafkaTopic", "t1")]) if proto not in ("*", "") else ("", "")
            ev.append(self.load(h, self.rule(t, st=self.pick(["workload", "*", "Workload"]), sn=self.pick(["a", "b,c", "svc.*", "*"]), rt=self.pick(["workload", "hostname", "*"]),
                                             rn=self.pick(["a", "x.y", "*"]), proto=proto, rest=rest, resn=resn, oper=self.pick(["GET", "read", "*", "", "WRITE"]), dec=self.pick(["allow", "Block", "ALERT"]))))
            ev.append({"op": "show", "h": h})
            for _ in range(self.r.randrange(1, 4)):
                k = self.pick(["one", "test", "low", "prep", "rt", "hash", "val", "copy"])
                if k == "one":
                    ev.append(self.one(h, "m"))
                elif k == "test":
                    ev.append(self.test(h, "m"))
                elif k == "low":
                    ev.append({"op": "low", "h": h})
                elif k == "prep":
                    ev += [self.prep(h), {"op": "show", "h": h}]
                    break
                elif k == "rt":
                    ev.append({"op": "rt", "h": h, "to": "t%d" % i, "fmt": self.pick(["json", "bson"])})
                    ev.append({"op": "show", "h": "t%d" % i})
                elif k == "hash":
                    ev.append({"op": "hash", "h": h, "to": h})
                elif k == "val":
                    ev.append({"op": "val", "h": h})
                else:
                    ev.append({"op": "copy", "h": h, "to": "c%d" % i})
                    ev.append({"op": "show", "h": "c%d" % i})
                ev.append({"op": "show", "h": h})
        return [e if e["op"] in ("msg", "load", "show") else dict(e, free=True) for e in ev]

    def C26(self):
        doc = self.doc()
        a = self.attrs(doc=doc)

        def leaf():
            if self.p(.45) and self.collections(doc):
                return self.quant(doc, None, self.pick([0, 0, 1]), a, returns=self.p(.2))
            return self.leaf(a, doc)
        t = self.bool_tree(self.pick([0, 0, 1, 1, 2]), leaf)
        ev = [self.msg("m0", a, self.mode()), self.msg("m1", self.attrs(doc=self.variant(doc)), self.mode())]
        for i in range(4):
            h = "r%d" % i
            ev.append(self.load(h, self.rule(self.rewrite(t)), self.pick(["yaml", "json", "file", "bson", "yaml"])))
            ev.append(self.test(h, "m0"))
            ev.append(self.test(h, "m1"))
            ev.append(self.one(h, "m0"))
        return ev

    def rewrite(self, t):
        """the same tree, written in another way"""
        import re
        if t[0] == "cond":
            c = list(t)
            if c[2] != "IS":
                c[2] = self.pick([c[2].upper(), c[2].lower()])
            p = c[1]
            if p.startswith("jsonpath:$.") and self.p(.4):
                p = "jsonpath:" + p[len("jsonpath:$"):]
            elif p.startswith("jsonpath:.") and self.p(.4):
                p = "jsonpath:$" + p[len("jsonpath:"):]
            if p.startswith("jsonpath:") and self.p(.5):
                def other(m):
                    return self.pick(['["%s"]', "['%s']", '.["%s"]', '.%s', '."%s"', ".'%s'"]) % m.group(1)
                head = re.match(r"jsonpath:(\$RELATIVE|\$VALUE|\$KEY|\$)?", p).group(0)
                rest = p[len(head):]
                rest2 = re.sub(r"\.([A-Za-z_][A-Za-z0-9_]*)", other, rest, count=1) if '"' not in rest and "'" not in rest else rest
                if rest2.startswith("["):
                    rest2 = "." + rest2
                p = head + rest2
            c[1] = p
            return c
        if t[0] in ("and", "or"):
            kids = [self.rewrite(x) for x in t[1]]
            return [t[0], kids]
        if t[0] == "not":
            return ["not", self.rewrite(t[1])]
        p = t[1]
        if "," not in p:
            if p.startswith("jsonpath:$.") and not p.startswith("jsonpath:$..") and self.p(.4):
                p = "jsonpath:" + p[len("jsonpath:$"):]
            if p.endswith("[:]") and self.p(.5):
                p = p[:-3] + self.pick(["[*]", "[:]"])
            elif p.endswith("[*]") and self.p(.5):
                p = p[:-3] + "[:]"
        return [t[0], p, t[2], self.rewrite(t[3])]


def histories(prop, seed, n, thorough=False):
    g = G("%s/%s" % (prop, seed), thorough)
    f = getattr(g, prop)
    out = []
    for i in range(n):
        g.n = 0
        g.big = i % 20 == 19
        g.odd = i % 5 == 3 and prop in ("C08", "C09", "C13", "C16", "C17", "C18")
        out.append({"id": "%s-%s-%d" % (prop, seed, i), "ev": f()})
    return out


if __name__ == "__main__":
    import json
    import sys
    for h in histories(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        print(json.dumps(h))
