"""Seeded generator of RuC programs (single file and include graphs), with optional injected source errors."""
import bank



class G:
    def __init__(self, r, size):
        self.r, self.size = r, size
        self.n = 0
        self.funcs = []
        self.theme = None

    def name(self, p):
        self.n += 1
        base = self.r.choice(["", "", "", "_x", "длинное", "q" * self.r.randint(1, 40)])
        return "%s%s%d" % (p, base, self.n)

    def piece(self, lst):
        self.n += 1
        if self.theme is not None and self.r.random() < .8:
            lst = [lst[t % len(lst)] for t in self.theme]
        return self.r.choice(lst).replace("{n}", str(self.n)).replace("{i}", str(self.r.randint(0, 6)))

    def expr(self, vs, d=0):
        r = self.r
        k = r.randint(0, 9)
        if d > 3 or k < 3:
            return str(r.choice([0, 1, 2, 3, 7, 10, 100, 255, 32767, 65536])) if not vs or r.random() < .4 else r.choice(vs)
        if k < 8:
            op = r.choice(["+", "-", "*", "+", "-", "&", "|", "^", "<<"])
            return "(%s %s %s)" % (self.expr(vs, d + 1), op, self.expr(vs, d + 1) if op != "<<" else r.choice(["1", "2", "3"]))
        if k == 8:
            return "(%s ? %s : %s)" % (self.cond(vs, d + 1), self.expr(vs, d + 1), self.expr(vs, d + 1))
        if self.funcs and r.random() < .6:
            f, a = r.choice(self.funcs)
            return "%s(%s)" % (f, ", ".join(self.expr(vs, d + 2) for _ in range(a)))
        return "(%s)" % self.expr(vs, d + 1)

    def cond(self, vs, d=0):
        r = self.r
        if d < 3 and r.random() < .3:
            return "(%s %s %s)" % (self.cond(vs, d + 1), r.choice(["&&", "||"]), self.cond(vs, d + 1))
        return "(%s %s %s)" % (self.expr(vs, d + 1), r.choice(["<", ">", "==", "!=", "<=", ">="]), self.expr(vs, d + 1))

    def stmts(self, vs, d, n):
        r = self.r
        o = []
        vs = list(vs)
        t = "\t" * (d + 1)
        for _ in range(n):
            if r.random() < (.2 if self.theme is None else .5):
                o.append(t + self.piece(bank.STMT))
                continue
            k = r.randint(0, 13)
            if k <= 2:
                v = self.name("v")
                o.append("%sint %s = %s;" % (t, v, self.expr(vs)))
                vs.append(v)
            elif k == 3 and vs:
                o.append("%s%s %s %s;" % (t, r.choice([v for v in vs]), r.choice(["=", "+=", "-=", "*=", "|="]), self.expr(vs)))
            elif k == 4 and d < 4:
                o.append("%sif (%s)\n%s{\n%s\n%s}" % (t, self.cond(vs), t, self.stmts(vs, d + 1, r.randint(1, 3)), t))
                if r.random() < .5:
                    o.append("%selse\n%s{\n%s\n%s}" % (t, t, self.stmts(vs, d + 1, r.randint(1, 2)), t))
            elif k == 5 and d < 3:
                v = self.name("i")
                o.append("%sint %s;\n%sfor (%s = 0; %s < %d; %s++)\n%s{\n%s\n%s}" % (t, v, t, v, v, r.randint(1, 9), v, t, self.stmts(vs + [v], d + 1, r.randint(1, 3)), t))
            elif k == 6:
                a = self.name("a")
                m = r.randint(1, 6)
                o.append("%sint %s[%d] = { %s };" % (t, a, m, ", ".join(str(r.randint(0, 99)) for _ in range(m))))
                o.append("%s%s[%d] = %s;" % (t, a, r.randrange(m), self.expr(vs)))
                o.append('%sprintf("%%i\\n", %s[%d]);' % (t, a, r.randrange(m)))
            elif k == 7:
                o.append('%sprintf("%s %%i\\n", %s);' % (t, r.choice(["x", "значение", "v" * r.randint(1, 60)]), self.expr(vs)))
            elif k == 8 and d < 3:
                v = self.name("w")
                o.append("%sint %s = %d;\n%swhile (%s > 0)\n%s{\n%s\n%s\t%s = %s - 1;\n%s}" % (t, v, r.randint(0, 5), t, v, t, self.stmts(vs + [v], d + 1, 1), t, v, v, t))
            elif k == 9 and d < 3 and vs:
                o.append("%sswitch (%s)\n%s{\n%s\tcase 1:\n\t{\n%s\n\t}\n%s\t\tbreak;\n%s\tdefault:\n\t{\n%s\n\t}\n%s}" % (
                    t, r.choice(vs), t, t, self.stmts(vs, d + 2, 1), t, t, self.stmts(vs, d + 2, 1), t))
            elif k == 10:
                v = self.name("f")
                o.append("%sfloat %s = %s;\n%s%s = %s * 2.5 + 1;" % (t, v, r.choice(["1.5", "0.25", "3e2", "7.0"]), t, v, v))
            elif k == 11:
                o.append("%s// %s" % (t, r.choice(["comment", "комментарий", "c" * r.randint(0, 120)])))
            elif k == 12 and vs:
                o.append("%s%s%s;" % (t, r.choice(vs), r.choice(["++", "--"])))
            else:
                o.append('%sassert(%s, "%s");' % (t, self.cond(vs), r.choice(["must", "должно", ""])))
        return "\n".join(o) if o else t + ";"

    def func(self):
        r = self.r
        f = self.name("fn")
        a = r.randint(0, 3)
        ps = ["p%d" % i for i in range(a)]
        body = self.stmts(ps, 0, r.randint(1, self.size))
        s = "int %s(%s)\n{\n%s\n\treturn %s;\n}\n" % (f, ", ".join("int " + p for p in ps), body, self.expr(ps))
        self.funcs.append((f, a))
        return s

    def long(self):
        """something longer than the usual buffers"""
        r = self.r
        n = r.choice([200, 500, 1000, 1030, 2100, 4200])
        k = r.randint(0, 11)
        self.n += 1
        i = self.n
        w = r.choice(["a", "z9", "ж", "слово", "x_"])
        word = (w * n)[:n]
        if k == 0:
            return "int %s%d = 3;\nint lg%d()\n{\n\treturn %s%d + 1;\n}\n" % ("n" + word, i, i, "n" + word, i)
        if k == 1:
            return 'void ls%d()\n{\n\tprintf("%s\\n");\n}\n' % (i, word)
        if k == 2:
            return "// %s\nint lc%d; /* %s\n%s */\n" % (word, i, word, word)
        if k == 3:
            return "int la%d[%d] = { %s };\n" % (i, n // 8, ", ".join(str(r.randint(0, 99)) for _ in range(n // 8)))
        if k == 4:
            return "#define LM%d %s\nint lm%d = LM%d;\n" % (i, " + ".join(str(r.randint(0, 9)) for _ in range(n // 4)), i, i)
        if k == 5:
            m = r.randint(5, 40)
            ps = ["p%d" % j for j in range(m)]
            return "#define LF%d(%s) %s\nint lf%d = LF%d(%s);\n" % (i, ", ".join(ps), " + ".join(ps), i, i, ", ".join(str(j) for j in range(m)))
        if k == 6:
            return "int lx%d()\n{\n\treturn %s;\n}\n" % (i, " + ".join(str(r.randint(0, 9)) for _ in range(n // 4)))
        if k == 7:
            m = r.randint(5, 25)
            return "int lq%d()\n{\n\treturn %s1%s;\n}\n" % (i, "(" * m, ")" * m)
        if k == 8:
            m = r.randint(5, 30)
            return "".join("#if %d\n" % (j + 1) for j in range(m)) + "int li%d;\n" % i + "#endif\n" * m
        if k == 9:
            m = r.randint(20, 300)
            return "".join("int lv%d_%d = %d;\n" % (i, j, j) for j in range(m))
        if k == 10:
            m = r.randint(20, 300)
            return "".join("#define LD%d_%d %d\n" % (i, j, j) for j in range(m)) + "int ld%d = LD%d_%d;\n" % (i, i, r.randrange(m)) + "".join("#undef LD%d_%d\n" % (i, j) for j in r.sample(range(m), m // 2))
        return "#define LN%d(a) a + 1\nint ln%d = %s0%s;\n" % (i, i, "LN%d(" % i * (n // 100), ")" * (n // 100))

    def top(self):
        r = self.r
        q = r.random()
        if q < .3:
            return self.piece(bank.TOP)
        if q < .5:
            return self.piece(bank.PP)
        k = r.randint(0, 7)
        if k == 0:
            n = self.name("M")
            self.funcs.append((n, 2))
            return "#define %s(a, b) ((a) %s (b))\n" % (n, r.choice(["+", "-", "*"]))
        if k == 1:
            n = self.name("C")
            return "#define %s %d\n#if %s > %d\nint g%s = 1;\n#else\nint g%s = 2;\n#endif\n" % (n, r.randint(0, 9), n, r.randint(0, 9), n, n)
        if k == 2:
            s = self.name("S")
            return "struct %s\n{\n\tint x;\n\tfloat y;\n\tint z;\n};\nstruct %s g%s;\n" % (s, s, s)
        if k == 3:
            e = self.name("E")
            return "enum %s { %s };\n" % (e, ", ".join("%s_%d%s" % (e, i, " = %d" % (i * 3 + 5) if r.random() < .3 else "") for i in range(r.randint(1, 5))))
        if k == 4:
            n = self.name("K")
            return "#set %s %d\n#while %s < %d\nint g%s;\n#undef %s_never\n#set %s #eval(%s + %d)\n#endw\n" % (n, 1, n, 2, n, n, n, n, 3) if r.random() < .3 else "#ifdef %s\nint broken(((;\n#endif\n" % n
        if k == 5:
            g = self.name("ga")
            m = r.randint(1, 5)
            return "int %s[%d] = { %s };\n" % (g, m, ", ".join(str(r.randint(0, 9)) for _ in range(m)))
        return self.func()


def program(r, size=None, multi=None, err=None, theme=None):
    """({path: bytes}, [args]); theme: indices of the pieces to prefer, so that several programs have something in common"""
    if size is None:
        size = r.choice([1, 2, 3, 4, 6])
    nf = r.choice([1, 2, 3, 5, 8]) if size < 6 else r.choice([4, 8, 14])
    big = r.random()
    if big < .015:
        nf = r.choice([40, 80, 160])
    g = G(r, size)
    g.theme = theme
    parts = [g.top() for _ in range(nf)]
    if .015 <= big < .06:
        parts.insert(r.randrange(nf + 1), g.long())
    main = "%s main()\n{\n%s\n%s}\n" % (("int", g.stmts([], 0, r.randint(1, 6)), "\treturn 0;\n") if r.random() < .7 else ("void", g.stmts([], 0, r.randint(1, 6)), ""))
    if multi is None:
        multi = r.random() < .35
    if err is None:
        err = r.random() < .25
    files = {}
    args = []
    if multi and len(parts) > 1:
        k = r.randint(1, min(4, len(parts)))
        dirs = r.sample(["src", "src/inc", "lib", "src/deep/er"], r.randint(1, 3))
        twins = r.random() < .25
        text = []
        hdrs = []
        for i in range(k):
            h = "h%d.h" % i
            d = r.choice(dirs)
            body = parts[i]
            if hdrs and r.random() < .4:
                body = '#include "%s"\n' % r.choice(hdrs) + body
            files["/w/%s/%s" % (d, h)] = body
            if twins and r.random() < .6:
                # another header of that name further on: which one is taken depends on the search order
                files["/w/%s/%s" % (r.choice(dirs), h)] = body + "int twin%d = %d;\n" % (i, r.randint(0, 99))
            hdrs.append(h)
            text.append('#include "%s"' % h if r.random() < .7 else "#include <%s>" % h)
        if r.random() < .3:
            text.append(text[0])
        files["/w/src/main.c"] = "\n".join(text) + "\n" + "\n".join(parts[k:]) + main
        args = ["src/main.c"] + ["-I" + d for d in dirs if any(p.startswith("/w/" + d + "/") for p in files)]
    elif len(parts) > 1 and r.random() < .15:
        # several sources in one call
        k = r.randint(1, len(parts) - 1)
        first = r.choice(["src/a.c", "src/inc/a.c", "lib/a.c"])
        files["/w/" + first] = "\n".join(parts[:k])
        files["/w/src/main.c"] = "\n".join(parts[k:]) + main
        args = [first, "src/main.c"]
        if k > 1 and r.random() < .4:
            m = r.randint(1, k - 1)
            files["/w/" + first] = "\n".join(parts[:m])
            files["/w/src/b.c"] = "\n".join(parts[m:k])
            args.insert(1, "src/b.c")
    else:
        files["/w/src/main.c"] = "\n".join(parts) + main
        args = ["src/main.c"]
    if err:
        p = r.choice(sorted(files))
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            files[p] = mistake(r, g, files[p])
    if r.random() < .1:
        for p in files:
            files[p] = files[p].replace("\n", "\r\n")
    return {p: t.encode("utf-8") for p, t in files.items()}, args


def mistake(r, g, t):
    """a source error: one from the bank at a place that fits, or damage anywhere"""
    k = r.randint(0, 11)
    if k <= 3:
        return damage(r, t)
    ls = t.split("\n")
    if k >= 10:
        ls.insert(r.randrange(len(ls) + 1), directives(r) if k == 10 else soup(r))
        return "\n".join(ls)
    if k <= 7:
        # between two top level pieces
        at = [0, len(ls) - 1] + [i + 1 for i, x in enumerate(ls) if x == "}"]
        ls.insert(r.choice(at), g.piece(bank.PP_BAD if k <= 5 else bank.TOP_BAD).rstrip("\n"))
    else:
        at = [i + 1 for i, x in enumerate(ls) if x.startswith("\t") and x.endswith((";", "{", "}"))] or [0]
        ls.insert(r.choice(at), "\t" + g.piece(bank.STMT_BAD))
    return "\n".join(ls)


DIRECTIVES = ["#define", "#set", "#undef", "#if", "#ifdef", "#ifndef", "#elif", "#else", "#endif", "#macro", "#endm", "#eval", "#line", "#include", "#endw", "#while 0 &&", "#error", "#",
              "#определить", "#если", "#иначе", "#конецесли", "#вычислить", "#макрос"]
PPTOKENS = ["s", "t", "u", "v(", "s(", "t(a)", "t(a, b)", "(", "(", ")", ")", ",", "#eval", "#eval(", "#eval(1)", "#eval(s + 1)", "#вычислить(", "#", "##", "#a", "a##b", "a", "b", "1", "0", "12", "+", "-", "*", "/", "%",
            "<<", ">", "==", "!", "~", "&&", "||", "\"x\"", "'c'", "\"open", "'", "\\\n", "/* c */", "/* open", "// end", "#include", "#if", "#define", "<h0.h>", "\"h0.h\"", "int", ";", "{", "}", "  ", "\t", "я", "@"]


def directives(r):
    """preprocessor lines out of its own tokens in no particular order: most say something wrong"""
    o = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        d = r.choice(DIRECTIVES[:4] * 3 + DIRECTIVES) if r.random() < .85 else ""
        name = r.choice(["s", "s", "t(a)", "t(a, b)", "v()", "u", "м", ""])
        ts = ([name] if d and r.random() < .7 else []) + [r.choice(PPTOKENS) for _ in range(n)]
        o.append((d + " " + r.choice([" ", " ", ""]).join(ts)).rstrip(" " * r.randint(0, 1)))
    return "\n".join(o)


TOKENS = ["int", "float", "char", "void", "struct", "enum", "typedef", "const", "bool", "file", "if", "else", "while", "for", "do", "switch", "case", "default", "break", "continue", "return", "goto", "printf", "printid",
          "getid", "print", "upb", "abs", "t_create", "sizeof", "null", "true", "(", ")", "{", "}", "[", "]", ";", ",", ".", "->", "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "&&", "||",
          "?", ":", "++", "--", "+=", "-=", "<<=", ">>=", "<<", ">>", "a", "b", "main", "f", "s1", "1", "0", "2.5", "0x1F", "1e3", "'c'", "\"str\"", "\"%i\"", "\n", "\n\t", "цел", "если", "пусто"]


def soup(r):
    """tokens of the language in no particular order"""
    return " ".join(r.choice(TOKENS) for _ in range(r.choice([2, 3, 5, 8, 15])))


def damage(r, t):
    """a source error: drop, duplicate or replace a token or a line"""
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randint(0, 5)
        ls = t.split("\n")
        if k == 0 and len(ls) > 1:
            del ls[r.randrange(len(ls))]
            t = "\n".join(ls)
        elif k == 1:
            i = r.randrange(len(ls))
            ls.insert(i, r.choice(["int x", "}", "undefined_name = 3;", "#include \"missing.h\"", "#endif", "return;", "@", "int v1;", "break;", "\"abc", "if (", "#define", "1.2.3;", "int a[] = 3;"]))
            t = "\n".join(ls)
        else:
            i = r.randrange(max(1, len(t)))
            w = r.randint(1, 4)
            t = t[:i] + r.choice(["", ";", ")", "(", "}", "0", "x", "'", "\"", "/*", ",,"]) + t[i + w:]
    return t
