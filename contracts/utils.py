"""Contracts for file names, directories and booleans (pandalone/utils.py)."""
import errno
import itertools
import os
import re
import shutil
import sys
import tempfile

import z3

from pyvc.contract import Contract
from pyvc.core import Unsupported, cur, in_ctx
from pyvc.vals import *
from pyvc.vals import Val
from pyvc import tokens

from pandalone import utils

UT = "pandalone.utils:"


def with_models(models, func, args, kw):
    rt = sys.modules["pyvc.rt"]
    old = dict(rt.ALWAYS)
    rt.ALWAYS.update(models)
    try:
        return rt.hooked(func)(*args, **kw)
    finally:
        rt.ALWAYS.clear()
        rt.ALWAYS.update(old)


# -- directories --------------------------------------------------------------

class Disk:
    """what is at one path; others may change it between any two looks"""

    def __init__(self, g, path):
        self.g, self.path, self.made = g, path, []
        self.kind = g.choice("nothing", "dir", "file", "dangling link")

    def others(self):
        if self.kind in ("nothing", "dangling link"):
            self.kind = self.g.choice(self.kind, "dir", "file")

    def only(self, path):
        if path is not self.path:
            raise Unsupported("a look at another path")

    def exists(self, path):
        self.only(path)
        self.others()
        return self.kind in ("dir", "file")

    def isdir(self, path):
        self.only(path)
        self.others()
        return self.kind == "dir"

    def makedirs(self, path, mode=0o777, exist_ok=False):
        self.only(path)
        self.others()
        self.made.append(mode)
        if self.kind != "nothing":
            if exist_ok and self.kind == "dir":
                return
            raise FileExistsError(errno.EEXIST, "File exists")
        e = self.g.choice(None, errno.EACCES, errno.ENOTDIR, errno.ENOSPC)
        if e:
            raise OSError(e, "failed")
        self.kind = "dir"


class MakeDir(Contract):
    """
    When it returns, there is a directory: there before, made with the mode
    given, or by others at the same time; otherwise it is an OSError.
    """
    prop = "C25"
    target = UT + "ensure_dir_exists"
    call_site = False
    assumes = ("os.path.exists, isdir and os.makedirs by a stand-in file-system others may write to at any time "
               "(the real one in concrete runs)",)
    stand_in = "Dirs"

    def inputs(self, g):
        path = SAny(z3.Const("path", Val), "path")
        self.disk = Disk(g, path)
        mode = g.choice(None, 0o700)
        return ((path,) if mode is None else (path, mode)), {}

    def invoke(self, func, args, kw):
        d = self.disk
        return with_models({os.path.exists: d.exists, os.path.isdir: d.isdir, os.makedirs: d.makedirs}, func, args, kw)

    def check(self, args, kw, out):
        d = self.disk
        if any(m != (args[1] if len(args) > 1 else 0o755) for m in d.made):
            return False
        if out.exc is not None:
            return isinstance(out.exc, OSError) and d.kind != "dir"
        return d.kind == "dir"


class Dirs(Contract):
    """When it returns there is a directory, with the mode given if it made it; else an OSError."""
    prop = "C25"
    target = UT + "ensure_dir_exists"
    call_site = False
    signature_matters = False
    bounded = "paths up to 3 folders deep in a scratch folder with files, folders and links"

    def invoke(self, func, args, kw):
        there, path, mode = args
        top = tempfile.mkdtemp()
        old = os.umask(0)
        try:
            for kind, p in there:
                p = os.path.join(top, p)
                try:
                    if kind == "dir":
                        os.makedirs(p)
                    elif kind == "file":
                        open(p, "w").close()
                    else:
                        os.symlink(os.path.join(top, kind), p)
                except OSError:
                    pass
            p = os.path.join(top, path)
            was = os.path.isdir(p)
            try:
                if mode is None:
                    func(p)
                else:
                    func(p, mode)
                r = "ok"
            except OSError:
                r = "OSError"
            now = os.path.isdir(p)
            return r, was, now, (os.stat(p).st_mode & 0o777 if now and not was else None)
        finally:
            os.umask(old)
            shutil.rmtree(top)

    def check(self, args, kw, out):
        there, path, mode = args
        if out.exc is not None:
            return False
        r, was, now, m = out.value
        kinds = dict((p, k) for k, p in there)
        if (r == "ok") != now:
            return False
        blocked = any(kinds.get(path[:i]) == "file" or "/" not in kinds.get(path[:i], "/") and kinds[path[:i]] not in ("dir",)
                      for i in range(len(path) + 1) if i == len(path) or path[i] == "/")
        if not blocked and not now:
            return False
        return m is None or m == (0o755 if mode is None else mode)

    def cases(self, rng, tier):
        paths = ["a", "b", "a/b", "a/b/c", "a/c", "b/c"]
        for _ in range(300 if tier == "quick" else 3000):
            there = sorted(((rng.choice(["dir", "file", "nowhere", "dir"]), p) for p in rng.sample(paths, rng.randint(0, 3))),
                           key=lambda x: len(x[1]))
            yield (there, rng.choice(paths), rng.choice([None, None, 0o700, 0o750])), {}


# -- names of files -----------------------------------------------------------

def names_of(fname):
    base, ext = os.path.splitext(fname)
    return itertools.chain([fname], (base + str(i) + ext for i in itertools.count(1)))


class Unique(Contract):
    """
    The first of the names generated where nothing is: by default the name
    itself, then it with 1, 2, 3... before its extension.
    """
    prop = "C25"
    target = UT + "make_unique_filename"
    call_site = False
    proof_bound = "for up to 6 names taken; any of several names and generators"
    stand_in = "UniqueNames"
    assumes = ("os.path.exists by a stand-in giving anything, the same for the same name (concrete runs use the real one)",)

    def inputs(self, g):
        fname = g.choice("foo", "a.b/foo.txt", ".foo", "foo.tar.gz", "/x/y1.z", "a.")
        own = g.choice(None, lambda f: ("%s~%d" % (f, i) for i in range(20)))
        self.want = list(itertools.islice((own or names_of)(fname), 9))
        self.taken = dict(zip(self.want, g.choice(*itertools.product((True, False), repeat=6))))
        self.asked = set()
        return (fname,), ({"filegen": own} if own else {})

    def exists(self, name):
        if not isinstance(name, str):
            raise Unsupported("existence of %r" % (name,))
        self.asked.add(name)
        return self.taken.get(name, False)

    def invoke(self, func, args, kw):
        e = self.exists
        return with_models({os.path.exists: e, os.path.lexists: e}, func, args, kw)

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        i = self.want.index(out.value) if out.value in self.want else -1
        return i >= 0 and out.value in self.asked and not self.taken.get(out.value, False) and all(self.taken.get(n) for n in self.want[:i])


class UniqueNames(Contract):
    """The first of the names generated where nothing is."""
    prop = "C25"
    target = UT + "make_unique_filename"
    call_site = False
    signature_matters = False
    bounded = "scratch folders with up to 130 files, folders, pipes and links of such names"

    def invoke(self, func, args, kw):
        there, fname, own = args
        top = tempfile.mkdtemp()
        try:
            for i, p in enumerate(there):
                p = os.path.join(top, p)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.exists(p):
                    continue
                if i % 3 == 2:
                    os.makedirs(p)
                elif i % 7 == 4:
                    os.mkfifo(p)
                elif i % 7 == 5:
                    os.symlink(top if i % 2 else os.devnull, p)
                else:
                    open(p, "w").close()
            p = os.path.join(top, fname)
            r = func(p, filegen=lambda f: ("%s~%d" % (f, i) for i in range(500))) if own else func(p)
            return r[len(top) + 1:] if r.startswith(top + "/") else r
        finally:
            shutil.rmtree(top)

    def spec(self, there, fname, own):
        folders = set(there)
        for p in there:
            while "/" in p:
                p = p.rpartition("/")[0]
                folders.add(p)
        names = ("%s~%d" % (fname, i) for i in range(500)) if own else names_of(fname)
        return next(n for n in names if n not in folders)

    def cases(self, rng, tier):
        fnames = ["foo", "d.x/foo.txt", ".foo", "foo.tar.gz", "y1.z", "a.", "d.x/noext", "f%i.x", "f 1.x"]
        for _ in range(300 if tier == "quick" else 3000):
            f = rng.choice(fnames)
            n = rng.choice([0, 1, 2, 3, 5, 12, 130 if rng.random() < .1 else 9])
            own = rng.random() < .2
            gen = ["%s~%d" % (f, i) for i in range(n)] if own else list(itertools.islice(names_of(f), n))
            there = [x for x in gen if rng.random() < .95] + rng.sample(fnames, 1)
            if any(x.startswith(y + "/") or y.startswith(x + "/") for x in there for y in there):
                continue
            yield (there, f, own), {}


class Extension(Contract):
    """
    A name with one of the extensions (with or without their dot, in any case;
    the others by regex if so asked) stays, another one gets the first one.
    """
    prop = "C25"
    target = UT + "ensure_file_ext"
    call_site = False
    bounded = "all names and extensions of up to 4 of 4 characters, regexes and longer random ones"

    def spec(self, fname, ext, *exts, is_regex=False):
        def dotted(e):
            return e if e.startswith(".") else "." + e
        base = fname.rpartition("/")[2].lstrip(".")
        if is_regex:
            last = os.path.splitext(fname)[1]
            has = last.lower() == dotted(ext).lower() or any(re.fullmatch(e, last, re.I) for e in exts)
        else:
            has = any(base.lower().endswith(dotted(e).lower()) for e in (ext,) + exts)
        if has:
            return fname
        return (fname[:-1] if fname.endswith(".") else fname) + dotted(ext)

    def cases(self, rng, tier):
        ab = ["a", "B", ".", "/"]
        names = ["".join(p) for n in range(1, 5) for p in itertools.product(ab, repeat=n)]
        exts = ["".join(p) for n in range(1, 4) for p in itertools.product(["a", "b", "."], repeat=n)]
        exts = [e for e in exts if e.strip(".") and ".." not in e and not e.endswith(".")]
        for f in names:
            for e in rng.sample(exts, 6):
                yield (f, e), {}
                yield (f, e, rng.choice(exts)), {}
        for _ in range(1000):
            e = "".join(rng.choice(["c", ".", "+", "*", "(", ")", "[", "]", "?", "$", "^", "|", "\\", "d", "-"]) for _ in range(rng.randint(1, 4)))
            if not e.strip(".") or ".." in e or e.endswith("."):
                continue
            for f in ("a", "a." + e.strip("."), "a." + e.strip(".").upper(), "x.d" + e.strip("."), "b.cc", "b.c", "b." + e.strip(".")[:1]):
                yield (f, e, *rng.sample([r"\.xl\w", ".q"], rng.randint(0, 1))), {"is_regex": rng.random() < .7}
        rs = [r"\.xl\w{1,2}", r"\.txt|\.csv", r"\.x?", r"\.(a|b)", r"\.[ab]+", "", r"\.B"]
        for _ in range(3000 if tier == "quick" else 30000):
            f = "".join(rng.choice(["foo", ".", "xls", "XLT", "a", "/d", "csv", "txt", "x", "é"]) for _ in range(rng.randint(1, 4)))
            e = rng.choice([".xlsx", "xls", ".TXT", "csv", "tar.gz", ".a", "x", "+c", "é"])
            yield (f, e, *rng.sample(rs, rng.randint(0, 2))), {"is_regex": True}
            yield (f + rng.choice(["", ".tar.gz", ".x", e]), e, *rng.sample([".txt", "csv", "a", ".XLSX", "tar.gz"], rng.randint(0, 2))), {}


# -- booleans -----------------------------------------------------------------

WORDS = {True: ("yes", "true", "on"), False: ("no", "false", "off", "0", "")}


class Word(Sym):
    """
    any text, seen through which words it is, as it is, stripped, in lower
    case, or both (which way is all the same)
    """
    __class__ = property(lambda self: str)
    sees = z3.Function("sees", Val, z3.StringSort(), z3.IntSort(), z3.BoolSort())

    def __init__(self, t, ops=frozenset()):
        self.t, self.ops = t, ops

    def strip(self):
        return Word(self.t, self.ops | {"strip"})

    def lower(self):
        return Word(self.t, self.ops | {"lower"})

    def is_word(self, w):
        ops = ("strip" in self.ops) + 2 * ("lower" in self.ops)
        if ops & 1 and w != w.strip() or ops & 2 and w != w.lower():
            return z3.BoolVal(False)
        c = cur()
        seen = c.__dict__.setdefault("words_seen", [])
        new = (self.t, w, ops)
        b = lambda x: self.sees(x[0], z3.StringVal(x[1]), z3.IntVal(x[2]))
        for old in seen:
            if old[0] is self.t and old[2] == ops and old[1] != w:      # one text only
                c.assume(z3.Not(z3.And(b(old), b(new))))
            if old[0] is self.t and old[1] != w and old[2] & ops == old[2]:
                after = old[1].strip() if ops & 1 else old[1]
                after = after.lower() if ops & 2 else after
                if after != w:
                    c.assume(z3.Not(z3.And(b(old), b(new))))
        seen.append(new)
        return b(new)

    def __eq__(self, o):
        if isinstance(o, str) and not is_sym(o):
            return mkbool(self.is_word(o))
        if isinstance(o, Word):
            raise Unsupported("two texts")
        return False

    def __ne__(self, o):
        return ~(self == o)

    def __bool__(self):
        return cur().branch(z3.Not(self.is_word("")))

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        raise Unsupported("str.%s of any text" % name)

    def __repr__(self):
        return "<any text>"


class Texts2Bool(Contract):
    """
    Texts are true, but no, false, off, 0 and blanks, in any case and whatever
    blanks are around.
    """
    prop = "C26"
    target = UT + "str2bool"
    call_site = False
    stand_in = "Booleans"

    def inputs(self, g):
        self.w = Word(z3.Const("text", Val))
        return (self.w,), {}

    def check(self, args, kw, out):
        n = self.w.strip().lower()
        false = z3.Or(*[n.is_word(x) for x in WORDS[False]])
        if out.exc is not None or not (out.value is True or out.value is False):
            return False
        return mkbool(z3.Not(false) if out.value else false)


class Objects2Bool(Contract):
    """Anything but a text has its own truth."""
    prop = "C26"
    target = UT + "obj2bool"
    call_site = False
    stand_in = "Booleans"

    def inputs(self, g):
        self.w = g.choice(Word(z3.Const("text", Val)), None, g.int("n"), g.bool("b"), SAny(z3.Const("o", Val)))
        return (self.w,), {}

    def check(self, args, kw, out):
        w = self.w
        if out.exc is not None:
            return False
        if isinstance(w, Word):
            n = w.strip().lower()
            want = z3.Not(z3.Or(*[n.is_word(x) for x in WORDS[False]]))
        else:
            want = z3.BoolVal(bool(w))
        return mkbool(want if bool(out.value) else z3.Not(want))


class Text(str):
    """a text of a class of its own"""


class Booleans(Contract):
    """Texts are true, but no, false, off, 0 and blanks; other objects by their own truth, but no texts for str2bool."""
    prop = "C26"
    target = UT + "obj2bool"
    call_site = False
    signature_matters = False
    bounded = "words in all cases with blanks around, short texts and assorted objects"

    def invoke(self, func, args, kw):
        what, v = args
        return bool(func(v)) if what == "obj" else utils.str2bool(v)

    def check(self, args, kw, out):
        what, v = args
        if isinstance(v, str):
            return out.exc is None and out.value is (v.strip().lower() not in WORDS[False])
        if what == "str":
            return isinstance(out.exc, ValueError)
        return out.exc is None and out.value is bool(v)

    def cases(self, rng, tier):
        blanks = ["", " ", "\t ", "\n", "\xa0"]
        for w in [x for ws in WORDS.values() for x in ws] + ["1", "2", "y", "n", "o", "of", "offf", "nope", "00", "0.0", "none", "f", "é", "on off"]:
            for c in (str.lower, str.upper, str.title, str.swapcase):
                for a in blanks:
                    for b in blanks:
                        yield ("str", a + c(w) + b), {}
                        yield ("obj", a + c(w) + b), {}
        for v in (None, 0, 1, -5, 2.5, 0.0, float("nan"), True, False, [], [0], (), {}, {"a": 1}, b"", b"no", b"x", object(), set()):
            yield ("obj", v), {}
            if not isinstance(v, bytes):
                yield ("str", v), {}
        for w in ("no", "FALSE", " off", "0", "", "yes", "x"):
            yield ("obj", Text(w)), {}
            yield ("str", Text(w)), {}
        ts = tokens.texts("pandalone.utils")
        for a in ts:
            yield ("str", a), {}
            yield ("obj", a), {}
            for b in rng.sample(ts, 10):
                yield ("str", a + b), {}


CONTRACTS = [MakeDir, Dirs, Unique, UniqueNames, Extension, Texts2Bool, Objects2Bool, Booleans]
