"""Pieces of RuC the generator assembles: {n} is a fresh number, {i} a small integer, {x} an int expression without names."""

# ---- whole top-level pieces that compile
TOP = [
'int fa{n}(int *const p, int q[])\n{\n\treturn *p + q[0] + {i};\n}\n',
'typedef int *PT{n};\ntypedef struct TS{n}\n{\n\tint a;\n\tconst int b;\n} TT{n};\nPT{n} pt{n};\n',
'float fold{n}()\n{\n\tfloat a = 1.5 + 2.0;\n\ta = 3.5 - 0.5 * 2.0 / 4.0;\n\tif (1.5 < 2.5 && 2.5 > 1.5 && 1.5 <= 1.5 && 2.0 >= 1.0 && 1.0 == 1.0 && 1.0 != 2.0)\n\t{\n\t\ta = -1.5;\n\t}\n\treturn a;\n}\n',
'bool logic{n}()\n{\n\tbool a = !true;\n\tbool b = true && false || !false;\n\tbool c = a == b;\n\tif (a || !b)\n\t{\n\t\treturn c;\n\t}\n\treturn 1 < 2;\n}\n',
'int nul{n}(int *p)\n{\n\tint a = 1;\n\tint *q = a ? p : null;\n\tq = a ? null : p;\n\tif (p == null || null != q || null == null)\n\t{\n\t\treturn 0;\n\t}\n\tp = null;\n\treturn *q;\n}\n',
'const int ca{n}[3] = {1, 2, {i}};\nconst float cf{n} = 2.5;\nint cs{n}()\n{\n\tconst int k = ca{n}[1];\n\treturn k + ca{n}[2];\n}\n',
"float glf{n} = 1.5 + 1.0;\nbool glb{n} = true;\nint glc{n} = 'a';\nfloat conv{n}(int a)\n{\n\tfloat f = a;\n\tint c = 'b';\n\tc = 'c';\n\tf = 5;\n\treturn 1;\n}\n",
'char lit{n}()\n{\n\treturn "abc"[1];\n}\nfloat rf{n}()\n{\n\treturn 2.5;\n}\nbool rb{n}()\n{\n\treturn true;\n}\nvoid rv{n}()\n{\n\treturn;\n}\n',
'void dyn{n}(int k)\n{\n\tint a[k];\n\ta[0] = 1;\n\t{\n\t\tint b[k][k + 1];\n\t\tb[0][0] = a[0];\n\t}\n\tif (1)\n\t{\n\t\ta[0] = 2;\n\t}\n\twhile (1)\n\t{\n\t\tbreak;\n\t}\n}\n',
'int fp{n}(int (*f)(int), int (*g)(float, int *))\n{\n\tint a = 1;\n\treturn f(g(1.5, &a));\n}\n',
"struct P{n}\n{\n\tint a;\n\tfloat b;\n\tint c[3];\n} s{n};\nint use{n}(struct P{n} p)\n{\n\tp.a = {i};\n\tp.c[1] = p.a + 2;\n\treturn p.c[1];\n}\n",
"struct N{n}\n{\n\tint v;\n\tint *next;\n};\nint len{n}(struct N{n} *q)\n{\n\tint k = 0;\n\twhile (q->v > 0)\n\t{\n\t\tk++;\n\t\tq->v -= 1;\n\t}\n\treturn k;\n}\n",
"typedef int T{n};\nT{n} tv{n} = {i};\nT{n} tf{n}(T{n} a)\n{\n\tT{n} b = a * 2;\n\treturn b + tv{n};\n}\n",
"typedef struct Q{n}\n{\n\tint x;\n\tint y;\n} QT{n};\nQT{n} q{n};\nvoid setq{n}()\n{\n\tq{n}.x = {i};\n\tq{n}.y = q{n}.x << 1;\n}\n",
"int proto{n}(int, int);\nint callp{n}(int a)\n{\n\treturn proto{n}(a, {i});\n}\nint proto{n}(int a, int b)\n{\n\treturn a % (b + 1);\n}\n",
"int sum{n}(int a[])\n{\n\tint s = 0;\n\tint k;\n\tfor (k = 0; k < upb(a); k++)\n\t{\n\t\ts += a[k];\n\t}\n\treturn s;\n}\n",
"float mean{n}(float a, float b)\n{\n\treturn sqrt(a * a + b * b) / 2.0;\n}\n",
"int fact{n}(int k)\n{\n\tif (k < 2)\n\t{\n\t\treturn 1;\n\t}\n\treturn k * fact{n}(k - 1);\n}\n",
"int apply{n}(int (*f)(int), int v)\n{\n\treturn f(v);\n}\nint inc{n}(int v)\n{\n\treturn v + {i};\n}\nint ap{n}()\n{\n\treturn apply{n}(inc{n}, {i});\n}\n",
"enum Col{n} { RED{n}, GREEN{n} = 4, BLUE{n} };\nint col{n}(enum Col{n} c)\n{\n\tif (c == BLUE{n})\n\t{\n\t\treturn GREEN{n};\n\t}\n\treturn RED{n};\n}\n",
"char str{n}[] = \"строка {n}\\n\";\nvoid ps{n}()\n{\n\tprintf(\"%s\", str{n});\n\tprint(str{n});\n}\n",
"int mat{n}[2][3] = {{1, 2, 3}, {4, 5, 6}};\nint tr{n}()\n{\n\tint k, j, s = 0;\n\tfor (k = 0; k < 2; k++)\n\t\tfor (j = 0; j < 3; j++)\n\t\t\ts += mat{n}[k][j];\n\treturn s;\n}\n",
"void *th{n}(void *arg)\n{\n\tint num = t_getnum();\n\tt_sleep({i});\n\tt_sem_wait(num);\n\tt_sem_post(num);\n\tt_exit();\n\treturn arg;\n}\nvoid run{n}()\n{\n\tt_init();\n\tint k = t_create(th{n});\n\tint sm = t_sem_create(1);\n\tt_join(k);\n\tt_destroy();\n}\n",
"void msg{n}()\n{\n\tstruct msg_info { int numTh; int data; } m;\n\tm.numTh = {i};\n\tm.data = 7;\n\tt_msg_send(m);\n\tm = t_msg_receive();\n\tprint(m.data);\n}\n",
"цел рус{n}(цел а, вещ б)\n{\n\tцел ц = а;\n\tесли (ц > {i})\n\t{\n\t\tц = ц - 1;\n\t}\n\tиначе\n\t{\n\t\tпечатьф(\"%ц %в\\n\", ц, б);\n\t}\n\tвозврат ц;\n}\n",
"пусто печ{n}()\n{\n\tцел к;\n\tдля (к = 0; к < {i}; к++)\n\t{\n\t\tвыбор (к)\n\t\t{\n\t\t\tслучай 1:\n\t\t\t\tпечать(к);\n\t\t\t\tвыход;\n\t\t\tумолчание:\n\t\t\t\tпродолжить;\n\t\t}\n\t}\n}\n",
"const int cc{n} = {i};\nint getc{n}()\n{\n\treturn cc{n} * 3;\n}\n",
"bool flag{n}(int a)\n{\n\tbool b = true;\n\tif (a > {i})\n\t{\n\t\tb = false;\n\t}\n\treturn b;\n}\n",
"int g{n} = {i};\nint h{n} = -{i};\nfloat f{n} = 1.5e2;\nchar c{n} = 'q';\nchar d{n} = '\\n';\nchar e{n} = 'я';\nlong l{n} = 70000;\ndouble z{n} = 0.25;\n",
"int big{n}[100];\nvoid fill{n}()\n{\n\tint k;\n\tfor (k = 0; k < 100; k++)\n\t\tbig{n}[k] = k * k % 7;\n}\n",
"int str2{n}()\n{\n\tchar a[] = \"abc\";\n\tchar b[] = \"abd\";\n\tif (strcmp(a, b) != 0)\n\t\treturn strncmp(a, b, 2);\n\treturn strstr(a, b);\n}\n",
"void ptr{n}()\n{\n\tint a = {i};\n\tint *p = &a;\n\t*p = *p + 1;\n\tprintf(\"%i\\n\", *p);\n\tprintid(a);\n}\n",
"void io{n}()\n{\n\tint a;\n\tfloat b;\n\tgetid(a, b);\n\tprintid(a, b);\n\tprint(a);\n\tprintf(\"%i %f %c\\n\", a, b, 'c');\n}\n",
"int lit{n}()\n{\n\treturn 0x1F + 0b101 + 0o17 + 0d9 + 'a' + '\\0' + '\\'';\n}\n",
"void nop{n}()\n{\n\t;\n\t{\n\t}\n\t{\n\t\tint a = 1;\n\t\t{\n\t\t\tint a = 2;\n\t\t\ta = a + {i};\n\t\t}\n\t}\n}\n",
"int lots{n}(int a, int b, int c, int d, int e, int f, int g, int h)\n{\n\treturn a + b * c - d / (e + 1) % (f + 1) + (g << 2) - (h >> 1);\n}\nint cl{n}()\n{\n\treturn lots{n}(1, 2, 3, 4, 5, 6, 7, {i});\n}\n",
"struct In{n}\n{\n\tint a;\n\tint b;\n};\nstruct Out{n}\n{\n\tstruct In{n} i;\n\tint t;\n};\nvoid nest{n}()\n{\n\tstruct Out{n} o = {{1, 2}, 3};\n\to.i.a = o.t + o.i.b;\n\tstruct Out{n} *p = &o;\n\tp->i.b = {i};\n}\n",
"file *fl{n}()\n{\n\tfile *f = fopen(\"a.txt\", \"r\");\n\tint c = fgetc(f);\n\tfputc(c, f);\n\tfclose(f);\n\treturn f;\n}\n",
"void rob{n}()\n{\n\tint a[2] = {1, 2};\n\tsend_int_to_robot({i}, a);\n\tint b = receive_int_from_robot({i});\n\tfloat c = receive_float_from_robot(1);\n}\n",
"int dyn{n}(int k)\n{\n\tint a[k];\n\tint b[k][2];\n\ta[0] = upb(a);\n\tb[0][1] = a[0] + {i};\n\treturn b[0][1];\n}\n",
]

# ---- statements that compile inside any function
STMT = [
"{ int u{n} = {i}; do { u{n}--; } while (u{n} > 0); }",
"{ int u{n}; for (u{n} = 0; u{n} < 10; u{n}++) { if (u{n} == {i}) continue; if (u{n} > 7) break; } }",
"{ int u{n} = {i}, w{n} = 3; u{n} <<= 2; u{n} >>= 1; u{n} %= 5; u{n} /= 2; u{n} ^= 6; u{n} &= 7; u{n} |= 8; w{n} = -u{n} + ~w{n}; }",
"{ float u{n} = {i}; u{n} = sin(u{n}) + cos(u{n}) * exp(1.0) - log(2.5); u{n} -= 0.5; u{n}++; printf(\"%f\\n\", u{n}); }",
"{ bool u{n} = 1 < 2; if (!u{n}) { print(1); } else if (u{n} && {i} > 3) print(2); else print(3); }",
"{ char u{n} = 'z'; printf(\"%c\\n\", u{n}); print(u{n}); }",
"{ int u{n}[2][2] = {{1, 2}, {3, {i}}}; u{n}[1][0]++; --u{n}[0][1]; print(u{n}[1][0]); }",
"{ int u{n}[3]; u{n}[0] = u{n}[1] = u{n}[2] = {i}; print(u{n}); }",
"{ int u{n} = abs(-{i}); float w{n} = abs(-1.5); int r{n} = round(2.6); }",
"{ int u{n} = {i} > 3 ? 1 : 2; u{n} = u{n} == 1 || u{n} != 2 && u{n} >= 0 ? u{n} : -u{n}; }",
"switch ({i}) { case 1: case 2: print(1); break; case 3: { print(3); } default: print(0); }",
"printf(\"%i%i %f %c %s\\n\", 1, {i}, 2.5, 'w', \"text\");",
"printf(\"тест %ц %в %л %с %%\\n\", 1, 2.0, 'я', \"строка\");",
"print(\"a\" \"b\" \"\\t\\\\\\\"\");",
"{ struct { int a; float b; } u{n} = {{i}, 0.5}; u{n}.a += 1; print(u{n}.a); }",
"{ int u{n} = {i}; int *w{n} = &u{n}; *w{n} += 2; (*w{n})++; }",
"{ char u{n}[] = \"{n}\"; u{n}[0] = 'a'; print(u{n}); }",
"assert({i} >= 0, \"проверка {n}\");",
"for (;;) { break; }",
"{ int u{n} = round(rand() * 10); if (u{n} > 5) exit({i}); }",
"while (0) ;",
"{ int u{n}[{i} + 1]; u{n}[0] = upb(u{n}); }",
"{ int u{n} = (1, 2, {i}); }",
"{ int *u{n} = null; }",
]

# ---- preprocessor pieces that are fine
PP = [
'#macro KA{n}(a)\n#ifdef a\nint ka{n};\n#else\nint kb{n};\n#endif\n#endm\nKA{n}(s)\n',
'#define SA{n}(a) a\nvoid sa{n}()\n{\n\tprintf(SA{n}("x,y("));\n\tprintf("%c", SA{n}(\',\'));\n}\n',
'#define D{n}() {i}\nint dd{n} = D{n}();\n',
'int sf{n} = \n#eval(1u + 1U + 1l + 1L + 1ul + 1lu + 1UL + 1LU + 1ll + 1LL + 1ull + 1llu + 1LLU + 1ULL)\n;\n',
"int sc{n} = \n#eval('\\n' + '\\0' + 'я' + '\\'')\n;\n",
'#if defined\n#endif\n',
'#macro MW{n}(a, b)\nint a;\n#if b\nint b;\n#endif\n#endm\nMW{n}(mw{n}, 1)\nMW{n}(mv{n}, 0)\n',
"#define A{n} {i}\n#define B{n}(x, y) ((x) * (y) + A{n})\nint ppa{n} = 3;\nint ppf{n}()\n{\n\treturn B{n}(ppa{n}, B{n}(1, A{n}));\n}\n",
"#set R{n} 1\n#set R{n} #eval(R{n} + {i})\nint ppr{n} = R{n};\n#undef R{n}\n",
"#if {i} > 3\nint ppi{n} = 1;\n#elif {i} == 2\nint ppi{n} = 2;\n#else\nint ppi{n} = 3;\n#endif\n",
"#ifndef G{n}\n#define G{n}\nint ppg{n};\n#endif\n#ifdef G{n}\nint ppd{n};\n#else\nint ppe{n}((;\n#endif\n",
"#macro L{n}(t)\nt++;\nt = t + {i};\n#endm\nvoid ppl{n}()\n{\n\tint q = 1;\n\tL{n}(q)\n}\n",
"int ppw{n};\nvoid ppwf{n}()\n{\n#set W{n} 0\n#while W{n} < 3\nppw{n} = ppw{n} +\n#eval(W{n} * 2)\n;\n#set W{n} #eval(W{n} + 1)\n#endw\n}\n",
"#define CAT{n}(a, b) a##b\nint CAT{n}(pp, cat{n}) = {i};\n",
"#define STR{n}(a) #a\nvoid pps{n}()\n{\n\tprint(STR{n}(x + {i}));\n}\n",
"int ppn{n} = \n#eval(0x10 + 0b11 + 0o7 + 0d5 * (2 - 1) / 1 % 7)\n;\n",
"int ppo{n} = \n#eval(!{i} || 1 && 0 | 2 & 3 ^ 1)\n;\nint pps{n} = \n#eval(1 << 3 >> 1)\n;\nint ppc{n} = \n#eval('a' + 1)\n;\n",
"int ppm{n} = \n#eval(-{i} + ~1 - +3)\n;\nint ppq{n} = \n#eval(({i} <= 4) + ({i} >= 2) + ({i} != 1) + (2 < 3) + (3 > 2) + (1 == 1))\n;\n",
"#define EMPTY{n}\nEMPTY{n} int ppx{n} EMPTY{n};\n",
"#определить РМ{n} {i}\nint ppy{n} = РМ{n};\n#если РМ{n} > 2\nint ppz{n};\n#иначе\nint ppv{n};\n#конецесли\n",
"#define LONG{n}(a) a + \\\n\ta * \\\n\t{i}\nint ppk{n} = LONG{n}(2);\n",
"#define ND{n}(x) IN{n}(x, {i})\n#define IN{n}(x, y) (x - y)\nint ppu{n} = ND{n}(ND{n}(5));\n",
"/* comment\n * over lines {n}\n */\n// строка {n}\nint pp1{n}; /* a */ int pp2{n};\n",
"#if 0\nnothing here { ( ]\n#if 1\n#else\n#endif\n#endif\n",
"#ifdef __NO{n}\n#error\n#while 1\n#endw\n#macro X\n#endm\n#endif\n",
"#define VA{n}(x, y, z) x y z\nVA{n}(int, va{n}, = {i};)\n",
"int sfx{n} = \n#eval(1u + 2l + 3ul + 4LL)\n;\n",
]

# ---- preprocessor mistakes
PP_BAD = [
'#include "main.c"\n',
'#include <main.c>\n',
'#if 1 *= 2\n#endif\n',
'#if 1 /= 2\n#endif\n',
'#if 1 %= 2\n#endif\n',
'#if 1 ^= 2\n#endif\n',
'#if 1 &= 2\n#endif\n',
'#if 1 |= 2\n#endif\n',
'#if 1 -= 2\n#endif\n',
'#if 1 += 2\n#endif\n',
'#if 1 -- 2\n#endif\n',
'#if 1 ++ 2\n#endif\n',
'#if 1 <<= 2\n#endif\n',
'#if 1 >>= 2\n#endif\n',
'#if 1 << = 2\n#endif\n',
'#if 1 = 2\n#endif\n',
"#if 'ab' == 'яж'\n#endif\n",
"#if ''\n#endif\n",
"#if '\\\n#endif\n",
'#define RE{n} RE{n} + 1\n#if RE{n}\n#endif\n',
'#define D{n}( ) 1\nint d{n} = D{n}( 1 );\n',
'#define D{n}(\n',
'#define D{n}(a,)\n',
'#define D{n}(,a)\n',
'#if 1ulu\n#endif\n',
'#if 1lll\n#endif\n',
'#if 1Ll\n#endif\n',
'#define D{n}(a) a\nint d{n} = D{n}("open);\n',
'#macro MZ{n}\n#include "main.c"\n#endm\nMZ{n}\n',
'#line 5\n',
'#line x\n',
'#line 5 "x.c"\n',
"#define\n", "#define 1x\n", "#undef\n", "#undef none{n}\n", "#set\n", "#set unknown{n} 1\n", "#ifdef\n#endif\n", "#ifndef 3\n#endif\n", "#if\n#endif\n", "#elif 1\n", "#else\n", "#endif\n",
"#if 1\n#else\n#else\n#endif\n", "#if 1\n#else\n#elif 2\n#endif\n", "#if 1\n", "#while 0\n", "#while\n#endw\n", "#endw\n", "#endm\n", "#macro\n#endm\n", "#macro M{n}\n", "#macro 5\n#endm\n",
"#include\n", "#include x\n", "#include \"nope{n}.h\"\n", "#include <nope\n", "#include \"nope\n", "#unknown{n}\n", "# \n", "int #x;\n", "#eval\n", "#eval(\n", "int e{n} = \n#eval(1 + )\n;\n",
"int e{n} = \n#eval(1 2)\n;\n", "int e{n} = \n#eval(())\n;\n", "int e{n} = \n#eval((1)\n;\n", "int e{n} = \n#eval(1.5)\n;\n", "int e{n} = \n#eval(1e3)\n;\n", "int e{n} = \n#eval(5zz)\n;\n", "int e{n} = \n#eval(\"s\")\n;\n", "int e{n} = \n#eval(1 / 0)\n;\n", "int e{n} = \n#eval(1 ? 2)\n;\n",
"int e{n} = \n#eval(1 : 2)\n;\n", "int e{n} = \n#eval(* 2)\n;\n", "int e{n} = \n#eval(1 @ 2)\n;\n", "int e{n} = \n#eval(name{n})\n;\n", "int e{n} = \n#eval('ab')\n;\n", "int e{n} = \n#eval('a)\n;\n",
"#define D{n}(a, a) a\n", "#define D{n}(1) x\n", "#define D{n}(a b) x\n", "#define D{n}(a, \n", "#define D{n}(a) ##a\n", "#define D{n}(a) a##\n", "#define D{n}(a) #b\n", "#define D{n} 1\n#define D{n} 2\n",
"#define F{n}(a, b) a + b\nint ff{n} = F{n}(1);\n", "#define F{n}(a, b) a + b\nint ff{n} = F{n}(1, 2, 3);\n", "#define F{n}(a) a\nint ff{n} = F{n};\n", "#define F{n}(a) a\nint ff{n} = F{n}();\n", "#define F{n}(a) a\nint ff{n} = F{n}(1;\n",
"#define RR{n} RR{n}\nint rr{n} = RR{n};\n", "#define RA{n} RB{n}\n#define RB{n} RA{n}\nint rr{n} = RA{n};\n", "/* never closed {n}\n", "char *s{n} = \"open\n;\n", "char c{n} = 'x\n;\n", "#line 5\n", "#line 7 \"other.c\"\n",
"#if 1 +\n#endif\n", "#if (1\n#endif\n", "#if 1)\n#endif\n", "#if \n#elif\n#endif\n", "#endif extra\n", "#ifdef X{n} extra\n#endif\n", "#else extra\n", "#macro K{n}(a, a)\na\n#endm\n", "#macro K{n}\n#define Z 1\n#endm\nK{n}\n", "#define\tU{n}\\\n", "#undef X Y\n",
"#if 1u2\n#endif\n", "#if 0x\n#endif\n", "#if 0b2\n#endif\n", "#if 0o9\n#endif\n", "#if 99999999999999999999999\n#endif\n", "#if 1 == == 2\n#endif\n", "#if ! \n#endif\n", "#if 1 || \n#endif\n", "#set s{n}(a) a\n#set s{n}(a, b) a b\nint y{n} = s{n}(1);\n",
]

# ---- declarations with mistakes
TOP_BAD = [
'int f{n}(int *[]);\n',
'int f{n}(int *(*)(int));\n',
'int f{n}(int *(*g)(int))\n{\n\treturn 1;\n}\n',
'int f{n}(int [](*g)(int))\n{\n\treturn 1;\n}\n',
'int f{n}(int k(*g)(int))\n{\n\treturn 1;\n}\n',
'int f{n}(int (*)(int (*h)(int)));\n',
'int f{n}(int (*g)(int (*h)(int)))\n{\n\treturn 1;\n}\n',
'int f{n}(int (*)(int)) {\n\treturn 1;\n}\n',
'int f{n}(int (*g)(int k), int l)\n{\n\treturn 1;\n}\n',
'int f{n}(void *[], int *p[])\n{\n\treturn 1;\n}\n',
'int f{n}(int (*)(int), int (*)(float)) { int a; { int b; } }\n',
'typedef int *;\n',
'typedef 5;\n',
'typedef int T{n}[3];\nT{n} t{n};\n',
'typedef struct { int a } T{n};\n',
'const x{n};\n',
'const struct S{n} { const int a; } s{n};\n',
'float f{n}()\n{\n\treturn "s" ? 1.5 : 2;\n}\n',
'int f{n}(int *p)\n{\n\tstruct { int a; } s;\n\tif (s && p || s)\n\t{\n\t}\n\treturn s + p;\n}\n',
"int;\n", "int x{n}\nint y{n};\n", "void v{n};\n", "int a{n}[];\n", "int a{n}[2.5];\n", "int a{n}[-1];\n", "int a{n}[2] = {1, 2, 3};\n", "int a{n}[2] = {};\n", "int a{n}[2] = 5;\n", "int a{n} = {1, 2};\n", "struct S{n} { };\n", "struct S{n} { int };\n", "struct S{n} { int a int b; };\n",
"struct S{n} { int a[]; };\n", "struct S{n} { int a; float a; };\n", "struct;\n", "struct Nope{n} s{n};\n", "enum E{n} { };\n", "enum E{n} { A{n} = 1.5 };\n", "enum E{n} { A{n} B{n} };\n", "enum E{n} { A{n}, A{n} };\n", "enum;\n", "enum E{n} { 5 };\n", "typedef;\n", "typedef int;\n", "typedef int int;\n",
"int f{n}(int a, int a)\n{\n}\n", "int f{n}(void v)\n{\n\treturn 1;\n}\n", "int f{n}(int a int b)\n{\n\treturn 1;\n}\n", "int f{n}(int)\n{\n\treturn 1;\n}\n", "int f{n}(int a);\nfloat f{n}(int a)\n{\n\treturn 1.0;\n}\n", "int f{n}(int a);\nint f{n}(int a, int b)\n{\n\treturn a;\n}\n", "int f{n}()\n{\n\treturn;\n}\n", "void f{n}()\n{\n\treturn 1;\n}\n",
"int f{n}();\n", "int f{n}()\n{\n\treturn 1;\n}\nint f{n}()\n{\n\treturn 2;\n}\n", "int f{n}[3]()\n{\n}\n", "*f{n}()\n{\n}\n", "int (*f{n})();\n", "const int c{n};\n", "const const int c{n} = 1;\n", "const int f{n}()\n{\n\treturn 1;\n}\n", "int x{n} = y_undeclared{n};\n", "int x{n}; float x{n};\n", "int x{n} = \"s\";\n",
"int main()\n{\n\treturn 1;\n}\n", "float main;\n", "}\n", "{\n", ");\n", "5;\n", "return 1;\n", "if (1) ;\n", "int f{n}(int g(int), int h)\n{\n\treturn g(h, 1);\n}\n", "int f{n}(int a[][], float b[])\n{\n\treturn a + b;\n}\n", "int a{n}[2][];\n", "int a{n}[2][2] = {1, 2};\n", "int *p{n}[3];\n", "int **q{n};\n", "int f{n}(float *a[])\n{\n\treturn a;\n}\n",
"struct L{n} { struct L{n} me; };\n", "file f{n};\n", "char s{n}[2] = \"too long\";\n", "char s{n} = \"abc\";\n", "float g{n} = 1.;\nfloat h{n} = .5;\nfloat k{n} = 1e;\n", "int n{n} = 12345678901234567890;\n", "int o{n} = 0x;\n", "int o{n} = 0b12;\n", "int o{n} = 08;\n", "char e{n} = '';\n", "char e{n} = '\\q';\n", "char e{n} = 'ab';\n", "int $ {n};\n", "int `;\n", "@\n",
]

# ---- statements with mistakes
STMT_BAD = [
"x_undeclared{n} = 1;", "int k{n} = ;", "int k{n} 5;", "5 = 6;", "1++;", "&5;", "*5;", "-\"s\";", "~1.5;", "!\"s\";", "upb(5);", "abs(\"s\");", "\"a\" + 1;", "int k{n}; int k{n};", "int k{n}; k{n}();", "int k{n}; k{n}[1] = 2;", "int k{n}[2]; k{n}[1.5] = 2;", "int k{n}; k{n}.a = 1;", "int k{n}; k{n}->a = 1;",
"struct { int a; } k{n}; k{n}.zz = 1;", "struct { int a; } k{n}; k{n} = 5;", "struct { int a; } k{n}; if (k{n}) ;", "if 1 ;", "if (1 ;", "if () ;", "else ;", "while ;", "while (1 ;", "do ; while (0)", "do ; until (0);", "for (", "for (;;", "for (1) ;", "for ;", "switch (1.5) { }", "switch 1 { }", "case 1: ;", "default: ;",
"switch (1) { case 1.5: ; }", "switch (1) { case 1 ; }", "switch (1) { default ; }", "break;", "continue;", "return return;", "printf();", "printf(5);", "printf(\"%i\");", "printf(\"%i\", 1.5);", "printf(\"%f\", \"s\");", "printf(\"%c\", 1.5);", "printf(\"%s\", 1);", "printf(\"%\");", "printf(\"%z\", 1);", "printf(\"a\", 1);",
"printf(\"%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i%i\", 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1);", "print();", "print(void);", "printid(5);", "printid();", "getid(5);", "getid();", "sin();", "sin(1, 2);", "sin(\"s\");", "strcmp(1, 2);", "t_create(5);", "t_msg_send(5);", "fopen(1);", "assert(1);", "assert(\"s\", \"s\");", "exit();",
"1 ? 2;", "1 ? \"s\" : 2;", "1 ? : 2;", "(1;", "1);", "[1];", "int k{n}[3; ", "int k{n} = {1, 2;", "int *k{n} = 5;", "const int k{n} = 1; k{n} = 2;", "const int k{n} = 1; k{n}++;", "const int k{n} = 1; int *p{n} = &k{n};", "int k{n} = 1 +;", "int k{n} = * ;", "int k{n} = 1 1;", "int k{n} = a b;", ",;", "1 +* 2;", "a.b.c;", "->;", ". ;",
"if (1 = 2) ;", "int k{n}; if (k{n} = 2) ;", "int k{n}[k{n}];", "int k{n}[\"s\"];", "float k{n}; k{n} % 2;", "float k{n}; k{n} << 2;", "float k{n}; k{n} & 1;", "bool k{n} = \"s\";", "char k{n} = 1.5;", "null = 1;", "int k{n} = null;", "main();", "int main = 1;", "struct U{n} k{n};", "enum V{n} k{n};", "typedef int;", "int f{n}() { }", "#eval(1);", "'a;", "\"abc;", "/* open", "int k{n} = 0xZZ;", "int k{n} = 1.2.3;", "int k{n} = 1e+;", "{ { {", "} } }", "\\", "@ # $ `", "int длинное_имя_переменной_{n} = длинное_имя;",
]
