#!/usr/bin/env python3
"""Writes what cxx-build generates from the bridge in lib.rs.

  bridge_header.py lib.rs OUTDIR

OUTDIR/trajoptlib/src/lib.rs.h holds the shared structs; OUTDIR/bridge_calls.h
calls every declared C++ function with the types and the order of arguments of
the bridge, as the generated shims do.
"""
import os
import re
import sys


class Bad(Exception):
    pass


def tokens(text):
    pattern = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<s>"(?:[^"\\]|\\.)*")|'''
                         r'''(?P<t>[A-Za-z_]\w*|->|::|[^\s])''', re.S)
    for m in pattern.finditer(text):
        t = m.group("s") or m.group("t")
        if t:
            yield t


class Parser:
    def __init__(self, toks):
        self.t = list(toks)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self, want=None):
        t = self.peek()
        if t is None or (want is not None and t != want):
            raise Bad("expected %r, got %r at %s" % (want, t, " ".join(self.t[max(0, self.i - 8):self.i + 4])))
        self.i += 1
        return t

    def skip_group(self):
        pairs = {"(": ")", "[": "]", "{": "}"}
        close = [pairs[self.next()]]
        while close:
            t = self.next()
            if t in pairs:
                close.append(pairs[t])
            elif t == close[-1]:
                close.pop()

    def attributes(self):
        while self.peek() == "#":
            self.next()
            if self.peek() == "!":
                self.next()
            self.skip_group()

    def visibility(self):
        if self.peek() == "pub":
            self.next()
            if self.peek() == "(":
                self.skip_group()

    def type(self):
        t = self.next()
        if t == "&":
            if self.peek() == "'":
                self.next(), self.next()
            mut = self.peek() == "mut"
            if mut:
                self.next()
            return ("mutref" if mut else "ref", self.type())
        if t == "fn":
            self.next("(")
            args = []
            while self.peek() != ")":
                if self.peek(1) == ":" and self.peek(2) != ":":
                    self.next(), self.next()
                args.append(self.type())
                if self.peek() == ",":
                    self.next()
            self.next(")")
            ret = None
            if self.peek() == "->":
                self.next()
                ret = self.type()
            return ("fn", args, ret)
        if t == "[":
            inner = self.type()
            self.next("]")
            return ("slice", inner)
        if t == "(":
            self.next(")")
            return None
        while self.peek() == "::":
            self.next()
            t = self.next()
        if self.peek() == "<":
            self.next()
            args = []
            while self.peek() != ">":
                args.append(self.type())
                if self.peek() == ",":
                    self.next()
            self.next(">")
            return (t, *args)
        return t


PRIMITIVE = {"f64": "double", "f32": "float", "usize": "::std::size_t", "isize": "::rust::isize",
             "i64": "::std::int64_t", "u64": "::std::uint64_t", "i32": "::std::int32_t",
             "u32": "::std::uint32_t", "u8": "::std::uint8_t", "i8": "::std::int8_t",
             "u16": "::std::uint16_t", "i16": "::std::int16_t", "bool": "bool", "String": "::rust::String"}


def cpp(t):
    if t is None:
        return "void"
    if isinstance(t, str):
        return PRIMITIVE.get(t, t)
    if t[0] == "Vec":
        return "::rust::Vec<%s>" % cpp(t[1])
    if t[0] == "UniquePtr":
        return "::std::unique_ptr<%s>" % cpp(t[1])
    if t[0] == "SharedPtr":
        return "::std::shared_ptr<%s>" % cpp(t[1])
    if t[0] == "CxxVector":
        return "::std::vector<%s>" % cpp(t[1])
    if t[0] == "Result":
        return cpp(t[1])
    if t[0] == "Pin":
        return cpp(t[1])
    if t[0] == "ref":
        return "::rust::Str" if t[1] == "str" else cpp(t[1]) + " const &"
    if t[0] == "mutref":
        return cpp(t[1]) + " &"
    if t[0] == "fn":
        return "::rust::Fn<%s(%s)>" % (cpp(t[2]), ", ".join(cpp(a) for a in t[1]))
    raise Bad("type %r" % (t,))


def main(source, out):
    text = open(source).read()
    m = re.search(r'#\s*\[\s*cxx\s*::\s*bridge\s*(\(\s*namespace\s*=\s*(?:"([^"]*)"|([\w:]+))\s*,?\s*\))?\s*\]', text)
    if not m:
        raise Bad("no bridge")
    ns = (m.group(2) or m.group(3) or "").strip()
    p = Parser(tokens(text[m.end():]))
    p.attributes()
    p.visibility()
    p.next("mod")
    p.next()
    p.next("{")
    structs, opaque, fns = [], [], []
    while p.peek() != "}":
        p.attributes()
        p.visibility()
        t = p.next()
        if t == "use":
            while p.next() != ";":
                pass
        elif t == "struct":
            name = p.next()
            p.next("{")
            fields = []
            while p.peek() != "}":
                p.attributes()
                p.visibility()
                f = p.next()
                p.next(":")
                fields.append((f, p.type()))
                if p.peek() == ",":
                    p.next()
            p.next("}")
            structs.append((name, fields))
        elif t in ("unsafe", "extern"):
            if t == "unsafe":
                p.next("extern")
            abi = p.next()
            if abi != '"C++"':
                raise Bad("extern " + abi)
            p.next("{")
            while p.peek() != "}":
                p.attributes()
                p.visibility()
                k = p.next()
                if k == "include":
                    p.next("!")
                    p.skip_group()
                    p.next(";")
                elif k == "type":
                    opaque.append(p.next())
                    p.next(";")
                elif k in ("fn", "unsafe"):
                    if k == "unsafe":
                        p.next("fn")
                    name = p.next()
                    p.next("(")
                    args, self_t = [], None
                    while p.peek() != ")":
                        if p.peek() == "&":  # &self
                            p.next()
                            p.next("self")
                            self_t = ("ref", opaque[-1])
                        else:
                            a = p.next()
                            p.next(":")
                            ty = p.type()
                            if a == "self":
                                self_t = ty
                            else:
                                args.append((a, ty))
                        if p.peek() == ",":
                            p.next()
                    p.next(")")
                    ret = None
                    if p.peek() == "->":
                        p.next()
                        ret = p.type()
                    p.next(";")
                    fns.append((name, self_t, args, ret))
                else:
                    raise Bad("in extern block: " + k)
            p.next("}")
        else:
            raise Bad("in bridge: " + t)

    h = ["#pragma once", "#include <cstddef>", "#include <cstdint>", "#include <memory>", "#include <string>",
         "#include <type_traits>", "#include <utility>", "#include \"RustFFI.hpp\"", "#include \"rust/cxx.h\"", "",
         "namespace %s {" % ns if ns else ""]
    h += ["struct %s;" % n for n, _ in structs]
    # In an order in which members held by value are complete.
    done, rest = [], list(structs)
    while rest:
        for s in rest:
            used = re.findall(r"\w+", " ".join(cpp(t) for _, t in s[1]))
            if not any(o[0] in used for o in rest if o is not s):
                done.append(s)
                rest.remove(s)
                break
        else:
            raise Bad("recursive structs")
    for n, fields in done:
        h.append("struct %s final {" % n)
        h += ["  %s %s;" % (cpp(t), f) for f, t in fields]
        h += ["  using IsRelocatable = ::std::true_type;", "};"]
    if ns:
        h.append("}  // namespace " + ns)

    c = ["#pragma once", "#include \"trajoptlib/src/lib.rs.h\"", "", "namespace bridge {",
         "using namespace %s;" % ns if ns else ""]
    for name, self_t, args, ret in fns:
        const = self_t is not None and self_t[0] == "ref"
        cls = None
        if self_t is not None:
            inner = self_t[1] if self_t[0] != "Pin" else self_t[1][1]
            cls = cpp(inner)
        where = "%s::" % ns if ns else "::"
        params = (["%s%s%s& self" % (where, cls, " const" if const else "")] if cls else [])
        params += ["%s %s" % (cpp(t), a + "_") for a, t in args]
        types = ", ".join(cpp(t) for _, t in args)
        values = ", ".join("::std::move(%s_)" % a if not (isinstance(t, tuple) and t[0] in ("ref", "mutref")) else a + "_"
                           for a, t in args)
        r = cpp(ret)
        c.append("inline %s %s(%s) {" % (r, name, ", ".join(params)))
        if cls:
            # cxx's shims take the member's address as a function of these types, by value.
            c.append("  return self.%s(%s);" % (name, values))
        else:
            c.append("  return %s%s(%s);" % (where, name, values))
        c.append("}")
    c.append("}  // namespace bridge")

    os.makedirs(os.path.join(out, "trajoptlib", "src"), exist_ok=True)
    for path, lines in ((os.path.join(out, "trajoptlib", "src", "lib.rs.h"), h),
                        (os.path.join(out, "bridge_calls.h"), c)):
        new = "\n".join(lines) + "\n"
        if not os.path.exists(path) or open(path).read() != new:
            open(path, "w").write(new)


if __name__ == "__main__":
    try:
        main(sys.argv[1], sys.argv[2])
    except Bad as e:
        sys.exit(str(e))
