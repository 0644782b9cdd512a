#!/usr/bin/env python3
"""Generate dynamic_reconfigure Config headers from /repo/*/cfg/*.cfg."""
import sys, os, types, glob
repo, out = sys.argv[1:3]
class Gen:
    def __init__(self): self.params = []; self.pkg = None; self.enums = {}
    def add(self, name, paramtype, level=0, description='', default=None, min=None, max=None, edit_method=''):
        d0 = {'int': 0, 'double': 0.0, 'bool': False, 'str': ''}[paramtype]
        self.params.append((name, paramtype, level, default if default is not None else d0, min, max))
        if isinstance(edit_method, list): self.enums[name] = edit_method
    def add_group(self, *a, **k): return self
    def const(self, name, paramtype=None, value=None, descr=''): return value
    def enum(self, constants, descr=''): return list(constants)
    def generate(self, pkg, node, name): self.out = (pkg, node, name); return 0
for f in sorted(glob.glob(repo + '/*/cfg/*.cfg')):
    gens = []
    def PG():
        g = Gen(); gens.append(g); return g
    mod = types.ModuleType('dynamic_reconfigure.parameter_generator_catkin')
    for t, n in (('int', 'int_t'), ('double', 'double_t'), ('bool', 'bool_t'), ('str', 'str_t')): setattr(mod, n, t)
    mod.ParameterGenerator = PG
    sys.modules['dynamic_reconfigure'] = types.ModuleType('dynamic_reconfigure')
    sys.modules['dynamic_reconfigure.parameter_generator_catkin'] = mod
    try: exec(compile(open(f).read(), f, 'exec'), {'__name__': '__main__'})
    except SystemExit: pass
    g = gens[0]; pkg, node, name = g.out
    T = {'int': 'int', 'double': 'double', 'bool': 'bool', 'str': 'std::string'}
    def lit(t, v):
        if t == 'str': return '"%s"' % v
        if t == 'bool': return 'true' if v else 'false'
        if t == 'int': return str(int(v))
        return repr(float(v))
    cls = name + 'Config'
    o = ['#ifndef SIM_CFG_%s_%s' % (pkg, name), '#define SIM_CFG_%s_%s' % (pkg, name),
         '#include <dynamic_reconfigure/server.h>', 'namespace %s {' % pkg, 'class %s {' % cls, ' public:']
    for n, t, l, d, mi, ma in g.params: o.append('  %s %s;' % (T[t], n))
    o.append('  %s() {' % cls)
    # the generated class leaves fields uninitialised; a recognisable pattern exposes reads of them
    for n, t, l, d, mi, ma in g.params:
        if t in ('int', 'bool'): o.append('    %s = %s();' % (n, T[t]))
        elif t == 'double': o.append('    %s = 0.0;' % n)
    o.append('  }')
    o.append('  static const %s& __getDefault__() { static %s c = make_default(); return c; }' % (cls, cls))
    o.append('  static %s make_default() { %s c;' % (cls, cls))
    for n, t, l, d, mi, ma in g.params: o.append('    c.%s = %s;' % (n, lit(t, d)))
    o.append('    return c; }')
    o.append('  void __clamp__() {')
    for n, t, l, d, mi, ma in g.params:
        if t in ('int', 'double') :
            if mi is not None: o.append('    if (%s < %s) %s = %s;' % (n, lit(t, mi), n, lit(t, mi)))
            if ma is not None: o.append('    if (%s > %s) %s = %s;' % (n, lit(t, ma), n, lit(t, ma)))
    o.append('  }')
    o.append('  template <class P> void __fromServer__(P& p) {')
    for n, t, l, d, mi, ma in g.params: o.append('    p("%s", %s);' % (n, n))
    o.append('  }')
    o.append('  bool __set__(const std::string& k, double v) {')
    for n, t, l, d, mi, ma in g.params:
        if t != 'str': o.append('    if (k == "%s") { %s = static_cast<%s>(v); return true; }' % (n, n, T[t]))
        elif n in g.enums:
            # text choices are selected by their index
            for i, v in enumerate(g.enums[n]): o.append('    if (k == "%s" && static_cast<int>(v) == %d) { %s = "%s"; return true; }' % (n, i, n, v))
    o.append('    return false;\n  }')
    o.append('  uint32_t __level__(const %s& c) const {\n    uint32_t l = 0;' % cls)
    for n, t, l, d, mi, ma in g.params: o.append('    if (!(%s == c.%s)) l |= %du;' % (n, n, l))
    o.append('    return l;\n  }')
    o += ['};', '}', '#endif', '']
    path = '%s/%s/%s.h' % (out, f.split('/')[-3], cls)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    txt = '\n'.join(o)
    if not (os.path.exists(path) and open(path).read() == txt): open(path, 'w').write(txt)
