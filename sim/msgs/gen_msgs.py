#!/usr/bin/env python3
"""Generates C++ message headers with the shape of rosidl_generator_cpp's output.
usage: gen_msgs.py DEFINITIONS REPO OUTDIR"""
import os, re, sys, glob

PRIM = {'bool': 'bool', 'byte': 'uint8_t', 'char': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int16': 'int16_t',
        'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'int64': 'int64_t', 'uint64': 'uint64_t',
        'float32': 'float', 'float64': 'double', 'string': 'std::string', 'wstring': 'std::u16string'}

def snake(n):
    n = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', n)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n).lower()

def parse(lines, pkg):
    fields, consts = [], []
    for l in lines:
        m = re.match(r'^\s*(string)\s+(\w+)\s*=\s*"?([^"]*)"?\s*$', l)
        if m: consts.append(m.groups()); continue
        l = l.split('#')[0].strip()
        if not l: continue
        m = re.match(r'^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$', l)
        if m: consts.append(m.groups()); continue
        m = re.match(r'^(\S+)\s+(\w+)(?:\s+(.+))?$', l)
        if not m: raise SystemExit(f'cannot parse {l!r} in {pkg}')
        t, name, default = m.groups()
        a = re.match(r'^(.*?)(?:\[(.*)\])?$', t)
        fields.append((a.group(1).split('<=')[0], a.group(2), name, default))
    return fields, consts

def ctype(t, pkg, deps):
    if t in PRIM: return PRIM[t]
    if '/' in t:
        parts = t.split('/'); p, n = parts[0], parts[-1]
    else: p, n = pkg, t
    if n == 'Header' and '/' not in t: p = 'std_msgs'
    deps.append((p, n))
    return f'::{p}::msg::{n}'

def emit_struct(o, pkg, kind, name, fields, consts, deps):
    o.append(f'namespace {pkg} {{ template <typename MessageType> auto build(); }}')
    o.append(f'namespace {pkg} {{ namespace {kind} {{')
    o.append(f'struct {name}\n{{')
    for s in ('SharedPtr = std::shared_ptr<{0}>', 'ConstSharedPtr = std::shared_ptr<{0} const>', 'UniquePtr = std::unique_ptr<{0}>',
              'ConstUniquePtr = std::unique_ptr<{0} const>', 'WeakPtr = std::weak_ptr<{0}>', 'ConstWeakPtr = std::weak_ptr<{0} const>', 'Ptr = std::shared_ptr<{0}>'):
        o.append('  using ' + s.format(name) + ';')
    for t, n, v in consts:
        if t == 'string': o.append(f'  inline static const std::string {n} = "{v}";')
        else: o.append(f'  static constexpr {PRIM[t]} {n} = {v};')
    for t, arr, n, d in fields:
        c = ctype(t, pkg, deps)
        if arr is None:
            init = f' = {d}' if d is not None else ('{}' if t in PRIM else '{}')
            o.append(f'  {c} {n}{init};')
        elif arr == '' or arr.startswith('<='): o.append(f'  std::vector<{c}> {n}{{}};')
        else: o.append(f'  std::array<{c}, {arr}> {n}{{}};')
        o.append(f'  using _{n}_type = decltype({n});')
        o.append(f'  {name} & set__{n}(const _{n}_type & v) {{ {n} = v; return *this; }}')
    eq = ' && '.join(f'{n} == o.{n}' for _, _, n, _ in fields) or 'true'
    o.append(f'  bool operator==(const {name} & o) const {{ (void)o; return {eq}; }}')
    o.append(f'  bool operator!=(const {name} & o) const {{ return !operator==(o); }}')
    o.append('  template <typename Visitor> void sim_for_each(Visitor && v) const { (void)v; ' + ' '.join(f'v("{n}", {n});' for _, _, n, _ in fields) + ' }')
    o.append(f'  static constexpr const char * sim_type_name = "{pkg}/{kind}/{name}";')
    o.append('};')
    if fields:
        b = 'sim_builder'
        o.append(f'namespace {b} {{')
        names = [f[2] for f in fields]
        for i in reversed(range(len(names))):
            n = names[i]
            nxt = f'Init_{name}_{names[i+1]}' if i + 1 < len(names) else None
            ret = nxt or f'{pkg}::{kind}::{name}'
            body = f'return {nxt}(std::move(m));' if nxt else 'return std::move(m);'
            ctor = f'Init_{name}_{n}() = default; explicit Init_{name}_{n}({name} && x) : m(std::move(x)) {{}}'
            o.append(f'struct Init_{name}_{n} {{ {name} m; {ctor} {ret} {n}(typename {name}::_{n}_type v) {{ m.{n} = std::move(v); {body} }} }};')
        o.append('}')
    o.append('}}')
    if fields:
        o.append(f'namespace {pkg} {{ template <> inline auto build<::{pkg}::{kind}::{name}>() {{ return {kind}::sim_builder::Init_{name}_{fields[0][2]}(); }} }}')

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except FileNotFoundError: pass
    open(path, 'w').write(text)

def generate(out, pkg, kind, name, lines):
    o, deps = [], []
    if kind == 'msg':
        f, c = parse(lines, pkg)
        emit_struct(o, pkg, 'msg', name, f, c, deps)
    else:
        i = [k for k, l in enumerate(lines) if l.strip() == '---'][0]
        for suffix, part in (('_Request', lines[:i]), ('_Response', lines[i+1:])):
            f, c = parse(part, pkg)
            emit_struct(o, pkg, 'srv', name + suffix, f, c, deps)
        o.append(f'namespace {pkg} {{ namespace srv {{ struct {name} {{ using Request = {name}_Request; using Response = {name}_Response; static constexpr const char * sim_type_name = "{pkg}/srv/{name}"; }}; }} }}')
    head = ['#pragma once', '#include <array>', '#include <cstdint>', '#include <memory>', '#include <string>', '#include <vector>']
    head += sorted({f'#include <{p}/msg/{snake(n)}.hpp>' for p, n in deps})
    write(f'{out}/{pkg}/{kind}/{snake(name)}.hpp', '\n'.join(head + o) + '\n')

def main(defs, repo, out):
    cur, body = None, []
    blocks = []
    for l in open(defs).read().split('\n'):
        if l.startswith('== '):
            if cur: blocks.append((cur, body))
            cur, body = l[3:].strip(), []
        elif cur: body.append(l)
    blocks.append((cur, body))
    for c, b in blocks:
        p, k, n = c.split('/')
        generate(out, p, k, n, [x for x in b if not x.startswith('#')])
    for root in ('openscenario/openscenario_interpreter_msgs', 'openscenario/openscenario_preprocessor_msgs', 'simulation/traffic_simulator_msgs'):
        pkg = os.path.basename(root)
        for kind in ('msg', 'srv'):
            for f in sorted(glob.glob(f'{repo}/{root}/{kind}/*.{kind}')):
                generate(out, pkg, kind, os.path.basename(f)[:-4], open(f).read().split('\n'))

main(*sys.argv[1:4])
