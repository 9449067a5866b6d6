"""A reference interpreter of the accept/ignore and renaming rules of a manifest, written from the
documentation of the rules, and random rule sets for it."""
import re

KEYWORDS = {"break", "default", "func", "interface", "select", "case", "defer", "map", "var", "chan", "else", "goto", "package",
            "switch", "const", "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "go", "struct"}
BUILTIN = {"snakecase": dict(action="replace", **{"from": "_([^_]+)"}, to="$1", transform="title")}


def pyrx(s):
    return re.compile(s)


def matches(rx, s):
    """All non-overlapping matches the way Go counts them: an empty match next to a match is none."""
    out, end = [], -1
    for m in rx.finditer(s):
        if m.start() == m.end() and m.start() == end:
            continue
        out.append(m)
        end = m.end()
    return out


def expand(tpl, m):
    def sub(g):
        k = g.group(1) or g.group(2)
        try:
            return m.group(int(k) if k.isdigit() else k) or ""
        except (IndexError, error):
            return ""
    error = re.error
    return re.sub(r"\$(?:\{(\w+)\}|(\w+))", sub, tpl)


class Rules:
    def __init__(self, spec):
        """spec: {scope: [rule dict as in the manifest]}"""
        self.spec = spec
        self.rx = {}
        for scope, rules in spec.items():
            for r in rules:
                r = dict(r)
                if "load" in r:
                    for k, v in BUILTIN[r["load"]].items():
                        r.setdefault(k, v)
                a, f, t = r.get("action"), r.get("from", ""), r.get("to", "")
                if not a:
                    a, f, t = "replace", "(?P<_src>%s)" % (f or ".*"), "${_src}"
                elif not f:
                    f = "(.*)"
                self.rx.setdefault((a, scope), []).append((pyrx(f), t, r.get("transform")))

    def hit(self, action, scope, name):
        return any(rx.search(name) for rx, _, _ in self.rx.get((action, scope), []))

    def accepts(self, scope, name):
        if self.hit("ignore", scope, name):
            return False
        if self.hit("accept", scope, name):
            return True
        return self.accepts("global", name) if scope != "global" else False

    def apply(self, scope, name):
        for rx, to, tr in self.rx.get(("replace", scope), []):
            out, last = [], 0
            for m in matches(rx, name):
                b = expand(to, m)
                if tr == "lower":
                    b = b.lower()
                elif tr == "upper":
                    b = b.upper()
                elif tr in ("title", "export"):
                    b = b[:1].upper() + b[1:]
                elif tr == "unexport":
                    b = b[:1].lower() + b[1:]
                out += [name[last:m.start()], b]
                last = m.end()
            name = "".join(out) + name[last:]
        return name

    def name(self, scope, c, visibility=None):
        n = self.apply(scope, self.apply("global", c))
        n = self.apply("post-global", n)
        if visibility:
            n = self.apply(visibility, n)
        if n in KEYWORDS:
            n = {"type": "kind"}.get(n, "_" + n)
        return n

    def yaml(self, indent="    "):
        out = []
        for scope, rules in self.spec.items():
            out.append("%s%s:" % (indent, scope))
            for r in rules:
                out.append("%s  - {%s}" % (indent, ", ".join('%s: "%s"' % (k, v.replace("\\", "\\\\").replace('"', '\\"')) for k, v in r.items())))
            if not rules:
                out[-1] += " []"
        return "\n".join(out)


def random_renames(R, words, aggressive=True):
    """Renaming rules for the words that occur in the names."""
    def rule():
        w, w2 = R.choice(words), R.choice(words)
        k = R.randrange(12)
        if k == 0:
            return dict(action="replace", **{"from": "^my_"}, to=R.choice(["", "go_", "x", "M"]))
        if k == 1:
            return dict(transform=R.choice(["export", "unexport", "lower", "upper", "title"]))
        if k == 2:
            return dict(load="snakecase")
        if k == 3:
            return dict(load="snakecase", transform=R.choice(["upper", "lower"]))
        if k == 4:
            return {"action": "replace", "from": "_%s" % w, "to": R.choice(["_" + w2, "", "_q${0}"])}
        if k == 5:
            return {"transform": R.choice(["upper", "lower", "title"]), "from": R.choice([w, w[:2], "[aeiou]", "%s|%s" % (w, w2)])}
        if k == 6:
            return {"action": "replace", "from": "([a-z]+)_([a-z]+)", "to": R.choice(["${2}_${1}", "$2$1", "${1}${2}"])}
        if k == 7:
            return {"action": "replace", "from": "(%s)([0-9]*)" % w, "to": R.choice(["${1}v${2}", "${2}x${1}", "$1"]), "transform": R.choice(["title", "upper", "unexport"])}
        if k == 8:
            return {"action": "replace", "from": "(?P<num>[0-9]+)$", "to": "_n${num}"}
        if k == 9:
            return {"action": "replace", "from": "%s$" % w, "to": R.choice(sorted(KEYWORDS))} if aggressive else dict(transform="export")
        if k == 10:
            return {"action": "replace", "from": "(?i)%s" % w, "to": w2}
        return {"action": "replace", "from": "__+", "to": "_"}
    return [rule() for _ in range(R.choice([0, 0, 1, 1, 2, 3]))]
