#!/usr/bin/env python3
"""Generate C++ message/service headers (plain structs with hashing) from msgs.txt and /repo/*/msg."""
import sys, os, re, glob
spec, repo, out = sys.argv[1:4]
PRIM = {'bool':'uint8_t','byte':'int8_t','char':'uint8_t','int8':'int8_t','uint8':'uint8_t','int16':'int16_t',
 'uint16':'uint16_t','int32':'int32_t','uint32':'uint32_t','int64':'int64_t','uint64':'uint64_t','float32':'float',
 'float64':'double','string':'std::string','time':'ros::Time','duration':'ros::Duration'}
msgs, srvs = {}, {}
cur = None
for line in open(spec):
    line = line.rstrip('\n')
    if line.startswith('# ') or not line.strip(): continue
    if line.startswith('@ '):
        cur = msgs.setdefault(line[2:].strip(), []); continue
    if line.startswith('& '):
        parts = [[], []]; srvs[line[2:].strip()] = parts; cur = parts[0]; continue
    if line.strip() == '---': cur = parts[1]; continue
    cur.append(line.strip())
for f in sorted(glob.glob(repo + '/*/msg/*.msg')):
    pkg = f.split('/')[-3]
    msgs[pkg + '/' + os.path.basename(f)[:-4]] = [l.split('#')[0].strip() for l in open(f) if l.split('#')[0].strip()]
def parse(pkg, lines):
    fields, consts = [], []
    for l in lines:
        t, rest = l.split(None, 1)
        if '=' in rest:
            n, v = rest.split('=', 1); consts.append((t, n.strip(), v.strip())); continue
        m = re.match(r'^([\w/]+)(\[(\d*)\])?$', t)
        base, arr, n = m.group(1), m.group(2), m.group(3)
        if base == 'Header': base = 'std_msgs/Header'
        if base not in PRIM and '/' not in base: base = pkg + '/' + base
        fields.append((base, arr is not None, n, rest.strip()))
    return fields, consts
def ctype(b): return PRIM.get(b) or b.replace('/', '::')
def emit_struct(pkg, name, lines, full):
    fields, consts = parse(pkg, lines)
    o = []
    o.append('struct %s {' % name)
    inits = []
    for b, arr, n, f in fields:
        t = ctype(b)
        if arr and n: t = 'boost::array<%s, %s>' % (t, n)
        elif arr: t = 'std::vector<%s>' % t
        o.append('  typedef %s _%s_type;' % (t, f)); o.append('  %s %s;' % (t, f))
        if b in PRIM and not arr and b not in ('string', 'time', 'duration'): inits.append('%s(0)' % f)
        else: inits.append('%s()' % f)
    o.append('  %s()%s {' % (name, (' : ' + ', '.join(inits)) if inits else ''))
    for b, arr, n, f in fields:
        if arr and n and b in PRIM: o.append('    %s.assign(0);' % f)
    o.append('  }')
    for t, n, v in consts:
        if t == 'string': o.append('  static const char* %s_() { return %s; }' % (n, v))
    ints = [(t, n, v) for t, n, v in consts if t != 'string']
    if ints: o.append('  enum { %s };' % ', '.join('%s = %s' % (n, v) for t, n, v in ints))
    o.append('  template <class H> void sim_hash(H& h) const {')
    for b, arr, n, f in fields: o.append('    h.add(%s);' % f)
    o.append('    (void)h;\n  }')
    o.append('  static const char* sim_type() { return "%s"; }' % full)
    o.append('  typedef boost::shared_ptr< %s > Ptr;\n  typedef boost::shared_ptr< %s const> ConstPtr;' % (name, name))
    o.append('};')
    o.append('typedef boost::shared_ptr< %s > %sPtr;\ntypedef boost::shared_ptr< %s const> %sConstPtr;' % (name, name, name, name))
    deps = sorted({b for b, _, _, _ in fields if b not in PRIM})
    return o, deps
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)
def wrap(body, deps, guard, pkg):
    s = ['#ifndef %s' % guard, '#define %s' % guard, '#include <sim/msg_base.h>']
    s += ['#include <%s.h>' % d for d in deps]
    s += ['namespace %s {' % pkg] + body + ['}', '#endif', '']
    return '\n'.join(s)
for full, lines in msgs.items():
    pkg, name = full.split('/')
    body, deps = emit_struct(pkg, name, lines, full)
    write('%s/%s.h' % (out, full), wrap(body, deps, 'SIM_MSG_%s_%s_H' % (pkg, name), pkg))
for full, (rq, rs) in srvs.items():
    pkg, name = full.split('/')
    b1, d1 = emit_struct(pkg, name + 'Request', rq, full + 'Request')
    b2, d2 = emit_struct(pkg, name + 'Response', rs, full + 'Response')
    b3 = ['struct %s {' % name, '  typedef %sRequest Request;' % name, '  typedef %sResponse Response;' % name,
          '  Request request;', '  Response response;', '};']
    write('%s/%s.h' % (out, full), wrap(b1 + b2 + b3, sorted(set(d1 + d2)), 'SIM_SRV_%s_%s_H' % (pkg, name), pkg))
