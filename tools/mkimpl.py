#!/usr/bin/env python3
"""Writes nmv/impls_gen.go: implementation types with varied receivers,
embedded types, method names and signatures. The output is committed."""
import random
R = random.Random(20290)

STD = ["Get", "Head", "Post", "Put", "Patch", "Delete", "Connect", "Options", "Trace"]
CUSTOM = ["Share", "Lock", "Unlock", "A", "B2", "X", "Mkcol", "Propfind", "MSearch", "Z", "Get2",
          "GetAll", "Ping", "Purge", "Link", "Unlink", "Report", "Merge", "Bind", "Acl", "Label",
          "Search", "Subscribe", "Notify", "Move", "Copy", "Ñu", "Жук", "_Low", "r", "s", "d", "get",
          "Func", "Error", "GetX", "Ge", "Option", "Optionss", "Zz", "Q1", "Q2", "Q3", "Q4", "Q5", "Q6",
          "Q7", "Q8", "Q9", "Handle", "HandleGet", "NotAllowed", "Method", "AllowedMethod", "All", "Any"]
VARIANT = {"Get": ["GET", "GeT"], "Post": ["POST", "post"], "Put": ["PUT", "put"], "Head": ["HEAD"],
           "Delete": ["DELETE", "delete"], "Share": ["SHARE", "share"], "Options": ["OPTIONS", "options"]}
OTHER = ["Get", "GetHandle", "Serve", "XHandleGet", "HandlGet", "handlePut", "NotAllowedMethod",
         "PostHandle", "handle", "String2", "handleNotAllowedMethod", "HANDLEGet", "Handl"]

OK = ["(w http.ResponseWriter, r *http.Request, a *nm.Args) bool",
      "(w rwAlias, r *http.Request, a *argsAlias) bool",
      "(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool)"]
BAD = ["(w http.ResponseWriter, r *http.Request, a *nm.Args)",
       "(w http.ResponseWriter, r *http.Request) bool",
       "(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool",
       "(w http.ResponseWriter, r *http.Request, a nm.Args) bool",
       "(w http.ResponseWriter, r http.Request, a *nm.Args) bool",
       "(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool",
       "(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error)",
       "(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool",
       "(r *http.Request, w http.ResponseWriter, a *nm.Args) bool",
       "(w rwNamed, r *http.Request, a *nm.Args) bool",
       "(w http.ResponseWriter, r *http.Request, a any) bool",
       "() nm.Handler", "()", "(w http.ResponseWriter, r *http.Request, a *nm.Args) int"]

out = ['// Code generated by tools/mkimpl.py; DO NOT EDIT.', '', 'package main', '',
       'import (', '\t"net/http"', '', '\tnm "github.com/shohruhadham/nanomux"', ')', '']
oknames = set()
types = []  # (name, constructors)


def zero(sig):
    if sig.endswith('(bool, error)'):
        return 'return false, nil'
    t = sig[sig.rindex(')') + 1:].strip()
    return {'': 'return', 'bool': 'return false', 'myBool': 'return false', 'int': 'return 0',
            'nm.Handler': 'return nil'}[t]


def methods(T, recv, core, n, wrong, ptrish):
    """Emits methods of the type; recv gives the receiver for a method."""
    used, taken = set(), set()
    for _ in range(n):
        base = R.choice(STD) if R.random() < 0.5 else R.choice(CUSTOM)
        if n > 14 and R.random() < 0.8:
            base = R.choice(CUSTOM + STD)
        v = base
        if base in VARIANT and R.random() < 0.25:
            v = R.choice(VARIANT[base])
        name = 'Handle' + v
        if R.random() < 0.06:
            name = 'HandleNotAllowedMethod'
        bad = R.random() < wrong
        if name in used:
            continue
        up = name.upper()
        if not bad and up in taken:
            continue
        used.add(name)
        if not bad:
            taken.add(up)
            oknames.add(name)
        emit(T, recv, core, name, bad)
    for _ in range(R.choice([0, 0, 1, 2, 4])):
        name = R.choice(OTHER)
        if name in used:
            continue
        used.add(name)
        emit(T, recv, core, name, False)


def emit(T, recv, core, name, bad):
    ptr = R.random() < recv
    rc = ('*' if ptr else '') + T
    sig = R.choice(BAD) if bad else R.choice(OK)
    if bad:
        body = 'badCall("%s.%s"); %s' % (T, name, zero(sig))
        body = '\tbadCall("%s.%s")\n\t%s' % (T, name, zero(sig))
    else:
        self = 'x' if ptr else 'nil'
        c = core('(*x)' if ptr else 'x')
        body = '\treturn implCall(%s, %s, "%s.%s", w, r, a)' % (self, c, T, name)
    out.append('func (x %s) %s%s {\n%s\n}\n' % (rc, name, sig, body))


def count():
    return R.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 13, 14, 15, 16, 17, 20, 30, 45, 60])


structs = []
for i in range(70):
    T = 'gi%d' % i
    k = R.choice(['struct'] * 6 + ['func', 'map', 'slice', 'int', 'generic'])
    n = count()
    wrong = R.choice([0, 0.1, 0.3, 0.6, 1] if n < 20 else [0, 0.1, 0.3])
    recv = R.choice([0, 0.3, 0.5, 1, 1])
    if k == 'struct':
        extra = R.choice(['', '\tA, B int\n', '\tname string\n'])
        out.append('type %s struct {\n\tc *implCore\n%s}\n' % (T, extra))
        methods(T, recv, lambda x: '%s.c' % x, n, wrong, True)
        types.append((T, ['%s{c: c}' % T, '&%s{c: c}' % T]))
        structs.append(T)
    elif k == 'generic':
        T0 = T
        out.append('type %s[E any] struct {\n\tc *implCore\n\te E\n}\n' % T)
        T = T0 + '[E]'
        mark = len(out)
        methods(T, recv, lambda x: '%s.c' % x, n, wrong, True)
        types.append((T0, ['%s[int]{c: c}' % T0, '&%s[string]{c: c}' % T0]))
        for j in range(mark, len(out)):
            out[j] = out[j].replace('"%s.' % T, '"%s.' % T0)
    elif k == 'func':
        out.append('type %s func() *implCore\n' % T)
        methods(T, recv, lambda x: '%s()' % x, n, wrong, False)
        types.append((T, ['%s(func() *implCore { return c })' % T,
                          'ptrTo(%s(func() *implCore { return c }))' % T]))
    elif k == 'map':
        out.append('type %s map[string]*implCore\n' % T)
        methods(T, recv, lambda x: '%s["c"]' % x, n, wrong, False)
        types.append((T, ['%s{"c": c}' % T, '&%s{"c": c}' % T]))
    elif k == 'slice':
        out.append('type %s []*implCore\n' % T)
        methods(T, recv, lambda x: '%s[0]' % x, n, wrong, False)
        types.append((T, ['%s{c}' % T, '&%s{c}' % T]))
    else:
        out.append('type %s int\n' % T)
        methods(T, recv, lambda x: 'coreOf(int(%s))' % x, n, wrong, False)
        types.append((T, ['%s(c.n)' % T, 'ptrTo(%s(c.n))' % T]))

# Types that embed others. Ambiguous and shadowed methods come by themselves.
for i in range(60):
    T = 'ge%d' % i
    parts = R.sample(structs, R.choice([1, 1, 2, 3]))
    fields, vals = [], []
    for S in parts:
        if R.random() < 0.5:
            fields.append('\t' + S)
            vals.append(next(t for t in types if t[0] == S)[1][0])
        else:
            fields.append('\t*' + S)
            vals.append(next(t for t in types if t[0] == S)[1][1])
    if R.random() < 0.25:
        fields.append('\timplIface')
        vals.append('&ifaceImpl{c: c}')
    shadow = R.sample(STD + CUSTOM[:6], R.choice([0, 0, 1, 2]))
    for s in shadow:
        fields.append('\tHandle%s int' % s)
        vals.append('0')
    fields.append('\tc *implCore')
    vals.append('c')
    out.append('type %s struct {\n%s\n}\n' % (T, '\n'.join(fields)))
    n = R.choice([0, 0, 1, 2, 3, 6])
    used = set('Handle' + s for s in shadow)
    taken = set()
    for _ in range(n):
        name = 'Handle' + R.choice(STD + CUSTOM[:10])
        if R.random() < 0.15:
            name = 'HandleNotAllowedMethod'
        if name in used:
            continue
        used.add(name)
        bad = R.random() < 0.4
        if not bad:
            oknames.add(name)
        emit(T, R.choice([0, 1]), lambda x: '%s.c' % x, name, bad)
    lit = '%s{%s}' % (T, ', '.join(vals))
    types.append((T, [lit, '&' + lit]))
    structs.append(T)

out.append('var genTypes = []genType{')
for T, cons in types:
    out.append('\t{"%s", func(c *implCore) any { return %s },\n\t\tfunc(c *implCore) any { return %s }},' %
               (T, cons[0], cons[1]))
out.append('}\n')
oknames |= {'HandleIface', 'HandleGet', 'HandlePut', 'HandleOptions', 'HandleNotAllowedMethod'}
out.append('// genMethods tell whether a value has a method with the signature of handlers.')
out.append('var genMethods = []genMethod{')
for nme in sorted(oknames):
    out.append('\t{"%s", func(v any) nm.Handler {\n\t\tif x, ok := v.(interface {\n\t\t\t%s(http.ResponseWriter, *http.Request, *nm.Args) bool\n\t\t}); ok {\n\t\t\treturn x.%s\n\t\t}\n\t\treturn nil\n\t}},' % (nme, nme, nme))
out.append('}')
open('/verif/nmv/impls_gen.go', 'w').write('\n'.join(out) + '\n')
