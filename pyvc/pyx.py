"""Mechanical extraction of a Cython file into Python (run with the python that has Cython).

usage: pyx.py FILE.pyx > FILE.py

The tree of Cython's own parser is written out as Python.  Every value that goes into a place of a C type
(variable, parameter, attribute, element of a memory view, result of a function, explicit cast) passes
through vc_c(type, value); &a[i] becomes vc_addr(a, i); f[type](...) becomes vc_fused(f, type)(...).
Dropped: decorators and directives of cython, cimports, declarations without a value, docstrings.
Inside an expression integers are unbounded.  Anything else is refused.
"""
import sys


class Refused(Exception):
    pass


class Writer:
    def __init__(self):
        self.out, self.level = [], 0
        self.scopes = [{}]          # names with a C type
        self.attrs = {}             # attributes of the class being written
        self.ret = None
        self.cfuncs = set()
        self.structs = {}
        self.fused = {}
        self.elements = {}          # memory views: type of an element

    def line(self, s):
        self.out.append("    " * self.level + s)

    # types
    def base(self, t):
        n = type(t).__name__
        if n == "CSimpleBaseTypeNode":
            if t.name is None:
                return None
            name = ".".join(list(t.module_path) + [t.name]) if t.module_path else t.name
            if t.is_basic_c_type and name not in ("void", "bint", "float", "double", "object"):
                name = {-1: "short ", 0: "", 1: "long ", 2: "long long "}[t.longness] + name
                if t.signed == 0:
                    name = "unsigned " + name
                elif t.signed == 2:
                    name = "signed " + name
            return name
        if n == "MemoryViewSliceTypeNode":
            return "view " + self.base(t.base_type_node)
        raise Refused("type %s" % n)

    def declared(self, base, d):
        """name, type, default of a declarator"""
        t, default = self.base(base) if not isinstance(base, str) and base is not None else base, None
        while True:
            default = getattr(d, "default", None) or default
            n = type(d).__name__
            if n == "CNameDeclaratorNode":
                if not d.name and t is not None:          # an argument without type: the name stands as type
                    return t, None, default
                return d.name, t, default
            if n == "CPtrDeclaratorNode":
                t += " *"
                d = d.base
            else:
                raise Refused("declaration %s" % n)

    def type_of(self, e):
        n = type(e).__name__
        if n == "NameNode":
            for s in reversed(self.scopes):
                if e.name in s:
                    return s[e.name]
            return None
        if n == "AttributeNode" and type(e.obj).__name__ == "NameNode" and e.obj.name == "self":
            return self.attrs.get(e.attribute)
        if n == "IndexNode":
            t = self.type_of(e.base)
            if t and t.startswith("view "):
                return t[5:]
            if t and t.endswith(" *"):
                return t[:-2]
        return None

    def cast(self, t, s):
        if t is None or t.startswith("view ") or t in ("object", "bytes", "list", "tuple", "dict", "str") or t in self.classes:
            return s
        return "vc_c(%r, %s)" % (t, s)

    # expressions
    def e(self, n):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise Refused("expression %s" % type(n).__name__)
        return f(n)

    def e_NameNode(self, n):
        return n.name

    def e_IntNode(self, n):
        return str(int(n.value.rstrip("uUlL"), 0))

    def e_FloatNode(self, n):
        return n.value

    def e_BoolNode(self, n):
        return repr(bool(n.value))

    def e_NoneNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value.byteencode()) if hasattr(n.value, "byteencode") else bytes(n.value))

    def e_AttributeNode(self, n):
        return "%s.%s" % (self.e(n.obj), n.attribute)

    def binop(self, n):
        return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = e_BitwiseOrNode = binop

    def e_BoolBinopNode(self, n):
        return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_NotNode(self, n):
        return "(not %s)" % self.e(n.operand)

    def e_UnaryMinusNode(self, n):
        return "(-%s)" % self.e(n.operand)

    def e_TildeNode(self, n):
        return "(~%s)" % self.e(n.operand)

    def e_CondExprNode(self, n):
        return "(%s if %s else %s)" % (self.e(n.true_val), self.e(n.test), self.e(n.false_val))

    def e_PrimaryCmpNode(self, n):
        s, c = "%s %s %s" % (self.e(n.operand1), n.operator, self.e(n.operand2)), n.cascade
        while c is not None:
            s += " %s %s" % (c.operator, self.e(c.operand2))
            c = c.cascade
        return "(%s)" % s

    def e_TupleNode(self, n):
        return "(%s,)" % ", ".join(self.e(a) for a in n.args) if n.args else "()"

    def e_ListNode(self, n):
        return "[%s]" % ", ".join(self.e(a) for a in n.args)

    def e_IndexNode(self, n):
        if type(n.base).__name__ == "NameNode" and n.base.name in self.cfuncs:
            return "vc_fused(%s, %r)" % (n.base.name, self.e(n.index))
        i = ", ".join(self.e(a) for a in n.index.args) if type(n.index).__name__ == "TupleNode" else self.e(n.index)
        return "%s[%s]" % (self.e(n.base), i)

    def e_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (self.e(n.base), self.e(n.start) if n.start else "", self.e(n.stop) if n.stop else "")

    def e_SliceNode(self, n):
        return "slice(%s, %s, %s)" % (self.e(n.start), self.e(n.stop), self.e(n.step))

    def e_AmpersandNode(self, n):
        if type(n.operand).__name__ != "IndexNode":
            raise Refused("address")
        return "vc_addr(%s, %s)" % (self.e(n.operand.base), self.e(n.operand.index))

    def e_TypecastNode(self, n):
        name, t, _ = self.declared(n.base_type, n.declarator)
        t = t or name
        return self.cast(t, self.e(n.operand))

    def e_SimpleCallNode(self, n):
        return "%s(%s)" % (self.e(n.function), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        args = [self.e(a) for a in n.positional_args.args]
        args += ["%s=%s" % (p.key.value, self.e(p.value)) for p in n.keyword_args.key_value_pairs]
        return "%s(%s)" % (self.e(n.function), ", ".join(args))

    # statements
    def s(self, n):
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            raise Refused("statement %s" % type(n).__name__)
        f(n)

    def block(self, n):
        self.level += 1
        k = len(self.out)
        self.s(n)
        if len(self.out) == k:
            self.line("pass")
        self.level -= 1

    def s_StatListNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_PassStatNode(self, n):
        self.line("pass")

    def s_BreakStatNode(self, n):
        self.line("break")

    def s_ContinueStatNode(self, n):
        self.line("continue")

    def s_FromCImportStatNode(self, n):
        pass

    s_CImportStatNode = s_FromCImportStatNode

    def s_FusedTypeNode(self, n):
        self.line("vc_fused_type(%r, %r)" % (n.name, [self.base(t) for t in n.types]))

    def s_CStructOrUnionDefNode(self, n):
        if n.kind != "struct" or not n.packed:
            raise Refused("structure that is not packed")
        fields = []
        for a in n.attributes:
            for d in a.declarators:
                fields.append(self.declared(a.base_type, d)[:2])
        self.line("vc_struct(%r, %r)" % (n.name, fields))

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            name, t, default = self.declared(n.base_type, d)
            (self.attrs if self.in_class else self.scopes[-1])[name] = t
            if default is not None:
                self.line("%s = %s" % (name, self.cast(t, self.e(default))))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            m = str(n.rhs.module_name.value)
            if m != "cython":
                self.line("import %s%s" % (m, " as %s" % n.lhs.name if n.lhs.name != m else ""))
            return
        self.line("%s = %s" % (self.target(n.lhs), self.cast(self.type_of(n.lhs), self.e(n.rhs))))

    def target(self, n):
        return ", ".join(self.e(a) for a in n.args) if type(n).__name__ == "TupleNode" else self.e(n)

    def s_CascadedAssignmentNode(self, n):
        t = "vc_value"
        self.line("%s = %s" % (t, self.e(n.rhs)))
        for x in n.lhs_list:
            self.line("%s = %s" % (self.e(x), self.cast(self.type_of(x), t)))

    def s_FromImportStatNode(self, n):
        self.line("from %s import %s" % (n.module.module_name.value, ", ".join("%s as %s" % (a, b.name) for a, b in n.items)))

    def s_InPlaceAssignmentNode(self, n):
        x = self.e(n.lhs)
        self.line("%s = %s" % (x, self.cast(self.type_of(n.lhs), "%s %s (%s)" % (x, n.operator, self.e(n.rhs)))))

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ("UnicodeNode", "StringNode"):
            return
        self.line(self.e(n.expr))

    def s_ReturnStatNode(self, n):
        self.line("return %s" % self.cast(self.ret, self.e(n.value)) if n.value is not None else "return")

    def s_RaiseStatNode(self, n):
        self.line("raise %s" % self.e(n.exc_type) if n.exc_type else "raise")

    def s_IfStatNode(self, n):
        for k, c in enumerate(n.if_clauses):
            self.line("%s %s:" % ("elif" if k else "if", self.e(c.condition)))
            self.block(c.body)
        if n.else_clause is not None:
            self.line("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.line("while %s:" % self.e(n.condition))
        self.block(n.body)
        if n.else_clause is not None:
            raise Refused("else of a loop")

    def s_ForInStatNode(self, n):
        self.line("for %s in %s:" % (self.target(n.target), self.e(n.iterator.sequence)))
        self.block(n.body)
        if n.else_clause is not None:
            raise Refused("else of a loop")

    def function(self, name, args, ret, body, extra=None):
        params, casts = [], []
        scope = {}
        for a in args:
            p, t, default = self.declared(a.base_type, a.declarator)
            default = a.default or default
            params.append(p + ("=" + self.e(default) if default is not None else ""))
            scope[p] = t
            c = self.cast(t, p)
            if c != p:
                casts.append("%s = %s" % (p, c))
        self.line("def %s(%s):" % (name, ", ".join(params)))
        self.scopes.append(scope)
        old, self.ret, self.in_class = (self.ret, self.in_class), ret, False
        self.level += 1
        for c in casts:
            self.line(c)
        if extra:
            self.line(extra)
        self.line("pass")
        self.level -= 1
        self.block(body)
        self.ret, self.in_class = old
        self.scopes.pop()

    in_class = False
    classes = ()

    def s_CFuncDefNode(self, n):
        d = n.declarator
        t = self.base(n.base_type)
        while type(d).__name__ == "CPtrDeclaratorNode":
            t = (t or "") + " *"
            d = d.base
        name = d.base
        while type(name).__name__ == "CPtrDeclaratorNode":
            t += " *"
            name = name.base
        self.function(name.name or self.base(n.base_type), d.args, None if t in ("void", name.name) else t, n.body)

    def s_DefNode(self, n):
        extra = None
        if self.in_class and n.name == "__init__" and self.cinit:
            extra = "self.__cinit__(%s)" % ", ".join(self.declared(a.base_type, a.declarator)[0] for a in n.args[1:])
        self.function(n.name, n.args, None, n.body, extra)

    def s_CClassDefNode(self, n):
        self.classes = tuple(self.classes) + (n.class_name,)
        self.line("class %s:" % n.class_name)
        self.attrs, self.in_class = {}, True
        stats = n.body.stats if type(n.body).__name__ == "StatListNode" else [n.body]
        self.cinit = any(type(x).__name__ == "DefNode" and x.name == "__cinit__" for x in stats)
        self.block(n.body)
        self.in_class = False

    def s_ModuleNode(self, n):
        stats = n.body.stats

        def names(x):
            if type(x).__name__ == "StatListNode":
                for y in x.stats:
                    names(y)
            elif type(x).__name__ == "CFuncDefNode":
                d = x.declarator
                while type(d).__name__ == "CPtrDeclaratorNode":
                    d = d.base
                b = d.base
                while type(b).__name__ == "CPtrDeclaratorNode":
                    b = b.base
                self.cfuncs.add(b.name)
        for x in stats:
            names(x)
        for x in stats:
            self.s(x)


def extract(path):
    from Cython.Compiler.TreeFragment import parse_from_strings
    with open(path, encoding="utf-8") as f:
        tree = parse_from_strings("extracted", f.read())
    w = Writer()
    w.s(tree)
    return "\n".join(w.out) + "\n"


if __name__ == "__main__":
    sys.stdout.write(extract(sys.argv[1]))
