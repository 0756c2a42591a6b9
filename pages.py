"""The templates and packed files of P24: a fixed pseudo-random set, generated by the real otemplate and opack inside the simulator and compiled into it."""
import os, random
TEXTS = ["Hello ", "<b>x</b>\n", "a \"quoted\" word ", "100%d %s%%\n", "\\back\\slash\\n ", "{ one } ", "\ttab\r\n", "?""?/ ", "\u00e9\u20ac1f ", "{# no #}", "{# a { % } comment ##}", "{", "{}", "}}", "%}", "\n\n", "''", "a&amp;b ", "/* c */ // d\n", "}", "0", "\x01\x7f9", "$(x) `y`"]
VARS = ["title", "user.name", "a.b.c", "marker", "LANG", "undefined", "user.none", "user", "title.x", "count", "flag", "empty", "list"]
DEF = ["title", "count", "marker", "user.name", "empty"]
class G:
    def __init__(s, r, blockfree): s.r = r; s.n = 0; s.bf = blockfree
    def text(s):
        t = "".join(s.r.choice(TEXTS) for _ in range(s.r.randint(1, 8)))
        if s.r.randint(0, 30) == 0: t += "long " * s.r.randint(700, 2500) + "\n"
        while t.endswith("{"): t = t[:-1]        # not the beginning of a tag
        return t.replace("{{", "{ {").replace("{%", "{ %").replace("{{", "{ {")
    def var(s, loops): return s.r.choice(VARS + [x for l in loops for x in (l, l + ".name", l + ".sub.v")] * 2)
    def body(s, depth, loops, blk, inc, pre):
        o = ""
        for _ in range(s.r.randint(1, 4)):
            k = s.r.randint(0, 3 if depth > 3 else 10)
            if k <= 1: o += s.text()
            elif k <= 3: v = s.var(loops); o += s.r.choice(["{{%s}}", "{{ %s }}", "{{%s }}"]) % v
            elif k == 4: o += "{%% if %s %%}%s" % (s.var(loops), s.body(depth + 1, loops, blk, inc, pre)) + ("{%% else %%}%s" % s.body(depth + 1, loops, blk, inc, pre) if s.r.randint(0, 1) else "") + "{% endif %}"
            elif k == 5:
                a = s.r.choice(DEF); b = s.r.choice(["\"x\"", "\"10\"", "\"\"", "\"a b\"", "\"50%\"", "\"\u00e9\"", None]) or s.r.choice([d for d in DEF if d != a])
                if s.r.randint(0, 3) == 0 and b[0] == '"': a, b = b, a
                o += "{%% if %s %s %s %%}%s" % (a, s.r.choice(["==", "!=", "<", "<=", ">", ">="]), b, s.body(depth + 1, loops, blk, inc, pre)) + ("{%% else %%}%s" % s.body(depth + 1, loops, blk, inc, pre) if s.r.randint(0, 1) else "") + "{% endif %}"
            elif k <= 7:
                v = s.r.choice(["x", "y", "flag"]); o += "{%% for %s in %s %%}%s{%% endfor %%}" % (v, s.r.choice(["list", "user.list", "nothing", "rows", "a.b"] + [l + ".sub" for l in loops]), s.body(depth + 1, loops + [v], False, inc, pre))
            elif k == 8 and inc: o += "{%% include \"%s\" %%}" % s.r.choice(inc)
            elif k == 9 and blk and not s.bf: s.n += 1; o += "{%% block %s%d %%}%s{%% endblock %%}" % (pre, s.n, s.body(depth + 1, loops, blk, inc, pre))
            elif k == 10: o += "{%% trans \"%s\" %%}" % s.r.choice(["Bye", "50% off", "a <b>", "two  words"])
        return o
def templates():
    r = random.Random(20240607); T = {}; free = []
    for i in range(8):
        n = "p%d%s.html" % (i, r.choice(["", "-x", ".y"])); T[n] = "{% load i18n %}" + G(r, True).body(0, [], False, free[:], "") ; free.append(n)
    T["empty.html"] = ""; T["brace.html"] = "the end {"; T["0num.html"] = "num {{title}}"; T["long.html"] = "w\"\\ " * 3000 + "{{title}}\r\n" + "\u00e9" * 1500; free.append("0num.html")
    for i in range(3):
        g = G(r, False); b = "base%d.html" % i; T[b] = "{% load i18n %}" + g.body(0, [], True, free, "b%d" % i) + "{%% block b%dz %%}%s{%% endblock %%}" % (i, g.body(1, [], True, free, "b%d" % i)) + g.text() + "{%% block b%dlast %%}{{title}}{%% endblock %%}" % i
        names = ["b%d%d" % (i, k + 1) for k in range(g.n)] + ["b%dz" % i, "b%dlast" % i]; prev = b
        for j in range(3):
            c = "child%d_%d.html" % (i, j); h = G(r, True); o = "{% load i18n %}" + (h.text() if r.randint(0, 1) else "") + "{%% extends \"%s\" %%}" % prev
            for k in r.sample(names, r.randint(1, min(3, len(names)))): o += h.text() + "{%% block %s %%}%s{%% endblock %%}" % (k, h.body(1, [], False, free, ""))
            T[c] = o + h.text(); prev = r.choice([b, c])
    return T
def packed():
    r = random.Random(77); F = {}
    for n in range(0, 14): F["static/n%d.txt" % n] = bytes(r.randrange(256) for _ in range(n))
    for n, s in (("static/page.html", 900), ("static/js/app.min.js", 4095), ("static/js/x-y.css", 4096), ("static/js/deep/er/q", 4097), ("static/img/logo.png", 9001), ("static/js/empty", 0), ("static/big.bin", 20011), ("one.html", 33), ("two-2.bin", 1), ("three.txt", 0)): F[n] = bytes(r.randrange(256) for _ in range(s))
    return F
MIME = "text/html\t\thtml htm\ntext/plain\t\ttxt\nimage/png\t\tpng\napplication/javascript\tjs\ntext/css css\n"
def ident(s, digits=False):
    s = "".join(c if c.isalnum() and ord(c) < 128 else "_" for c in s); return "_" + s if digits and s[0].isdigit() else s
def write(d):
    for sub, S in (("t", templates()), ("p", packed())):
        for n, v in S.items():
            p = os.path.join(d, sub, n); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "wb").write(v if isinstance(v, bytes) else v.encode())
    open(os.path.join(d, "mime.types"), "w").write(MIME)
def arr(b): return "(const char[]){" + ",".join(str(x if x < 128 else x - 256) for x in b) + (",0" if b else "0") + "}"
def glue(err):
    o = ["#include <onion/onion.h>", "#include <onion/dict.h>", "#include <onion/handler.h>", "struct sim_page{const char*name;void(*fn)(onion_dict*,onion_response*);int(*tmpl)(onion_dict*,onion_request*,onion_response*);onion_handler*(*handler)(onion_dict*);const char*src;unsigned len;};",
         "struct sim_pack{const char*path;int(*fn)(void*,onion_request*,onion_response*);const unsigned*len;const char*data;unsigned size;};"]
    T, F = templates(), packed(); e = ["{0}"]; k = ["{0}"]
    if not err:
        e = []; k = []
        for n, v in T.items():
            i = ident(n, True); o.append("void %s(onion_dict*,onion_response*);int %s_template(onion_dict*,onion_request*,onion_response*);onion_handler*%s_handler(onion_dict*);" % (i, i, i)); e.append('{"%s",%s,%s_template,%s_handler,%s,%d}' % (n, i, i, i, arr(v.encode()), len(v.encode())))
        for n, v in F.items():
            i = "opack_" + ident(n); o.append("int %s(void*,onion_request*,onion_response*);extern const unsigned %s_length;" % (i, i)); k.append('{"%s",%s,&%s_length,%s,%d}' % (n, i, i, arr(v), len(v)))
        o.append("int opack_static(void*,onion_request*,onion_response*);")
    o.append("const char*sim_pages_error=%s;" % ('"' + err.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"' if err else "0"))
    o.append("struct sim_page sim_pages[]={%s};unsigned sim_npages=%d;struct sim_pack sim_packs[]={%s};unsigned sim_npacks=%d;" % (",\n".join(e), 0 if err else len(e), ",\n".join(k), 0 if err else len(k)))
    o.append("int (*sim_packdir)(void*,onion_request*,onion_response*)=%s;" % ("0" if err else "opack_static"))
    return "\n".join(o) + "\n"
if __name__ == "__main__":
    import sys; write(sys.argv[1])
