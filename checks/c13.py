"""C13  Patterns match in the environment's directory, whatever its name."""
from sx.api import *

ASSUMPTIONS = ["entries whose name begins with a dot are only matched by patterns that begin with a dot, as usual",
               "** is not recursive", ".. after a component with a pattern is resolved by name"]


# ---------------------------------------------------------------- what a pattern stands for
def has_magic(p):
    return bool(or_(*[eq(c, x) for c in p for x in "*?["])) if len(p) else False


def member(c, body):
    r = False
    i = 0
    while i < len(body):
        if i + 2 < len(body) and bool(eq(body[i + 1], "-")):
            r = or_(r, and_(body[i] <= c, c <= body[i + 2]))
            i += 3
        else:
            r = or_(r, eq(c, body[i]))
            i += 1
    return r


def match(p, s):
    """does the name s match the pattern p (no / in either)"""
    if len(s) and bool(eq(s[0], ".")) and not (len(p) and bool(eq(p[0], "."))):
        return False
    return match_at(p, 0, s, 0)


def match_at(p, i, s, j):
    while i < len(p):
        c = p[i]
        if bool(eq(c, "*")):
            return any(match_at(p, i + 1, s, n) for n in range(j, len(s) + 1))
        if j == len(s):
            return False
        if bool(eq(c, "?")):
            i += 1
            j += 1
            continue
        if bool(eq(c, "[")):
            a = i + 1
            neg = a < len(p) and bool(eq(p[a], "!"))
            if neg:
                a += 1
            z = a + 1
            while z < len(p) and not bool(eq(p[z], "]")):
                z += 1
            if z < len(p):
                if bool(member(s[j], [p[x] for x in range(a, z)])) == neg:
                    return False
                i = z + 1
                j += 1
                continue
        if not bool(eq(c, s[j])):
            return False
        i += 1
        j += 1
    return j == len(s)


def matches(t, cwd, pattern):
    """the nodes a pattern stands for, seen from directory node cwd"""
    k = t.k
    node = cwd
    if len(pattern) and bool(eq(pattern[0], "/")):
        node = k.root
    dironly = len(pattern) > 1 and bool(eq(pattern[len(pattern) - 1], "/"))
    nodes = [node]
    for comp in pattern.split("/"):
        if len(comp) == 0 or bool(eq(comp, ".")):
            continue
        nxt = []
        for n in nodes:
            if n.kind != "dir":
                continue
            if bool(eq(comp, "..")):
                nxt.append(n.parent or n)
            else:
                for name, x in n.entries:
                    if has_magic(comp):
                        if match(comp, name):
                            nxt.append(x)
                    elif len(comp) == len(name) and bool(eq(comp, name)):
                        nxt.append(x)
        nodes = nxt
    return [n for n in nodes if not dironly or n.kind == "dir"]


def judge(t, e, arg, cwd, how="plain"):
    k = t.k
    t.prog("x", exits(0))
    if how == "plain":
        cmd = e.x(arg)
    elif how == "named":
        cmd = e.x(file=arg)
    else:
        cmd = e.x("first", arg, "last")
    t.call(lambda: cmd.run(), "starting the program")
    p = t.one("x")
    cwdnode = k.lookup(cwd)
    got = p.argv[1:]
    if how == "named":
        for g in got:
            t.prove(eq(g[:7], "--file="), "a named parameter arrives changed")
        got = [g[7:] for g in got]
    elif how == "between":
        t.prove(len(got) >= 2 and eq(got[0], "first") and eq(got[-1], "last"), "other arguments are changed")
        got = got[1:-1]
    want = matches(t, cwdnode, arg)
    t.note("argv", list(got))
    if not want:
        t.prove(len(got) == 1 and eq(got[0], arg), "a pattern that matches nothing is changed")
        t.cover("nothing")
        return
    t.prove(len(got) == len(want), "a pattern expands to %d arguments instead of %d" % (len(got), len(want)))
    nodes = []
    saved, k.rootp.cwd = k.rootp.cwd, cwdnode
    try:
        for g in got:
            try:
                nodes.append(k.lookup(g, follow=False))
            except OSError:
                t.fail("an argument does not name anything for the program")
    finally:
        k.rootp.cwd = saved
    for w in want:
        t.prove(len([n for n in nodes if n is w]) == 1, "an entry that matches is not there, or twice")
    t.cover("matches")


CWDS = ["/w/d", "/w/[ab]", "/w/*", "/w/a?b", "/w/[!x]/y", "/w/sp ace", "/w/%s", "/w/~", "/w/[", "/w/é", "/w/-x", "/", "/w/d/.", "/w/w", "/w/dd/d"]


def world(t, cwd, entries, procdir="/p"):
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, env=False)
    k = t.k
    d = k.mkdir_p(cwd.replace("/.", "") if cwd.endswith("/.") else cwd)
    for x in entries:
        if x.endswith("@"):
            # a link to nowhere
            k.add_entry(d, x[:-1], type(k.root)("link")).target = "nowhere"
        elif x.endswith("/"):
            k.add_entry(d, x[:-1], type(k.root)("dir"))
        elif "/" in x:
            sub, _, name = x.rpartition("/")
            s = d
            for c in sub.split("/"):
                nx = k._entry(s, c)
                s = nx if nx is not None else k.add_entry(s, c, type(k.root)("dir"))
            k.add_entry(s, name, type(k.root)("file"))
        else:
            k.add_entry(d, x, type(k.root)("file"))
    # names that contain the directory's own one
    own = (cwd[:-2] if cwd.endswith("/.") else cwd).rstrip("/")
    k.mkdir_p(own + "s")
    k.add_file(own + "s/g1", b"")
    k.add_file(own + "s/sub/g2", b"")
    k.mkdir_p(own + "/copy" + own)
    k.add_file(own + "/copy" + own + "/g3", b"")
    k.add_file(own + "/copy" + own + "s/g4", b"")
    # one that only differs in case
    if own.swapcase() != own:
        k.add_file(own.swapcase() + "/g5", b"")
    # the process is somewhere else, where the patterns match too
    k.add_file(procdir + "/zz", b"")
    k.add_file(procdir + "/a1", b"")
    k.add_file("/w/a/a9", b"")
    k.add_file("/w/b/a9", b"")
    k.rootp.cwd = k.lookup(procdir)
    t.env = t.environ.Environment(cwd=cwd, exports={"PATH": "/bin"})
    t.prove(k.path_of(k.cwd_path(k.rootp)) == procdir, "making an environment moves the process")
    return cwd


TREE = ["a1", "a2", "b1", ".h", "sub/f1", "sub/f2", "sut/f1", "sut/.g", "dir/", "star*", "q?", "[x]", "x y", "-a", "lost@"]
PATTERNS = ["*", "a*", "?1", "[ab]1", "[!a]1", "*1", ".*", "su?/f*", "*/f1", "sub/*", "./a*", "../*", "star[*]", "q[?]", "[[]x]", "x*",
            "-*", "nothing*", "*/nothing", "dir/*", "a[1-9]", "[]]", "[", "a[", "*/", "su*/", "a*/", "sub/../a*", "/w/*/a9",
            "/p/*", "*/*/*", "//w/a/*", "sub//f*", ".", "[.]h", "*.h", "?h", "??", "***1", "**", "**/f1", "sub/**", "**/*",
            "{cwd}/*", "{cwd}s/*", "{cwd}s/*/*", "{cwd}s*", "../{base}s/*", "../{base}*/*", "lost*", "lo[s]t", "{swap}/*", "{swap}/g?", "copy{cwd}/*", "copy{cwd}*/g?", "copy/*/*"]


def patterns(t, hows):
    """Every pattern of a list in every directory of a list."""
    cwd = t.pick("cwd", CWDS)
    pattern = t.pick("pattern", PATTERNS)
    plain = cwd.replace("/.", "").rstrip("/")
    if "{" in pattern and "%" in plain:
        t.assume(False)
    if "{swap}" in pattern and plain == plain.swapcase():
        t.assume(False)
    pattern = pattern.replace("{cwd}", plain).replace("{swap}", plain.swapcase()).replace("{base}", plain.rpartition("/")[2])
    d = world(t, cwd, TREE)
    judge(t, t.env, pattern, d, t.pick("how", hows))


scenario("C13", "patterns", args=(["plain"],), covers=["nothing", "matches"],
         bounds="%d patterns in %d directories of 15 entries" % (len(PATTERNS), len(CWDS)))(patterns)


def spellings(t):
    """In named parameters and between other arguments."""
    d = world(t, t.pick("cwd", ["/w/d", "/w/[ab]"]), TREE)
    judge(t, t.env, t.pick("pattern", ["*", "a*", "nothing*", "sub/*"]), d, t.pick("how", ["named", "between"]))


scenario("C13", covers=["nothing", "matches"], bounds="4 patterns in 2 directories, named and between other arguments")(spellings)


def names(t, nent, length, pats):
    """Any names of entries."""
    pattern = t.pick("pattern", pats)
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, env=False)
    k = t.k
    d = k.mkdir_p("/w/d")
    ents = []
    for i in range(nent):
        n = 1 + t.choose("len%d" % i, length)
        s = t.str("n%d" % i, n, exclude="/\0", escapes=True)
        t.assume(not_(eq(s, ".")))
        t.assume(not_(eq(s, "..")))
        for o in ents:
            t.assume(not_(eq(s, o)))
        ents.append(s)
        k.add_entry(d, s, type(k.root)("file"))
    t.env = t.environ.Environment(cwd="/w/d", exports={"PATH": "/bin"})
    judge(t, t.env, pattern, "/w/d")


scenario("C13", "names", args=(2, 2, ["*", "a*", "?", "[ab]*", "[!a]", "*a", ".*"]), covers=["nothing", "matches"],
         bounds="7 patterns, 2 entries with any names of 1-2 characters")(names)
scenario("C13", "names_deep", args=(2, 3, ["*", "a*", "?b", "[a-c]*", "[!a]?", "*a*", ".?*", "[*]", "a[?]"]), tier="thorough",
         covers=["nothing", "matches"], bounds="9 patterns, 2 entries with any names of 1-3 characters")(names)


def anypattern(t, n, alphabet, entries):
    """Any pattern."""
    pat = t.str("p", n, among=alphabet)
    t.assume(or_(*[eq(c, x) for c in (pat[i] for i in range(n)) for x in "*?["]))
    t.assume(not_(eq(pat[0], "~")))
    d = world(t, t.pick("cwd", ["/w/d", "/w/[ab]"]), entries)
    judge(t, t.env, pat, d)


scenario("C13", "anypattern", args=(3, "*?[]!ab.", ["a", "b", "ab", ".a", "]", "!"]), covers=["nothing", "matches"],
         bounds="any pattern of 3 characters of 8, in 2 directories of 6 entries")(anypattern)
scenario("C13", "anypattern_deep", args=(4, "*?[]!ab./", ["a", "b/a", "ab", ".a", "]", "!"]), covers=["nothing", "matches"], tier="thorough",
         bounds="any pattern of 4 characters of 9, in 2 directories of 6 entries")(anypattern)


def anycwd(t, n):
    """Any name of the directory itself."""
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, env=False)
    k = t.k
    s = t.str("dir", n, exclude="/\0", escapes=True)
    t.assume(not_(eq(s, ".")))
    t.assume(not_(eq(s, "..")))
    t.assume(not_(eq(s[0], "~")))
    Node = type(k.root)
    # directories that a name with pattern characters could be taken for
    for other in ("a", "b", "ab"):
        if len(other) == n:
            t.assume(not_(eq(s, other)))
        k.add_file("/w/" + other + "/wrong", b"")
    d = k.add_entry("/w", s, Node("dir"))
    k.add_entry(d, "f1", Node("file"))
    if t.flag("second"):
        k.add_entry(d, "f2", Node("file"))
    k.add_file("/p/f9", b"")
    k.rootp.cwd = k.lookup("/p")
    e = t.environ.Environment(cwd="/w", exports={"PATH": "/bin"})
    if t.flag("cd"):
        t.call(lambda: e.cd(s).run(), "changing the directory")
    else:
        e = t.call(lambda: e(cwd=s), "making an environment")
    judge(t, e, t.pick("pattern", ["*", "f?", "g*", "./f*"]), "/w/" + s)


scenario("C13", "anycwd", args=(2,), covers=["nothing", "matches"], bounds="any directory name of 2 characters, 4 patterns")(anycwd)
scenario("C13", "anycwd_deep", args=(3,), covers=["nothing", "matches"], tier="thorough", bounds="any directory name of 3 characters, 4 patterns")(anycwd)
