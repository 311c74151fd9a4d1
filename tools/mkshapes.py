#!/usr/bin/env python3
"""Generates sim/src/typed/catalog.rs: annotated types and their descriptions.

The description is what the annotations are documented to mean; the types go
through the real derive macros.  Output is a pure function of this file.
"""
import random, re, os

OUT = os.path.join(os.path.dirname(__file__), '..', 'sim', 'src', 'typed', 'catalog.rs')
INTS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize']
TEXTS = {'String': 'String', 'PathBuf': 'PathBuf', 'Arc<str>': 'Arc<str>', 'Arc<Path>': 'Arc<Path>'}

out = []
SCALAR_ENUMS = {}
SHAPES = {}     # name -> dict(kind, partial, doc, span_typed, pure)
ORDER = []

def kebab(s):
    s = s[2:] if s.startswith('r#') else s
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1-\2', s)
    s = re.sub(r'([A-Z]+)([A-Z][a-z])', r'\1-\2', s)
    return s.replace('_', '-').strip('-').lower()

def unwrap_ty(t, w):
    """inner type if t is w<inner>"""
    p = w + '<'
    if t.startswith(p) and t.endswith('>'):
        return t[len(p):-1]
    return None

def sc(t):
    if t in TEXTS: return '&Sc::Text("%s")' % TEXTS[t]
    for w in ('Box', 'Rc', 'Arc', 'Raw'):
        x = unwrap_ty(t, w)
        if x: return sc(x)
    x = unwrap_ty(t, 'Option')
    if x: return '&Sc::Opt(%s)' % sc(x)
    x = unwrap_ty(t, 'Spanned')
    if x:
        a, q = x.rsplit(', ', 1)
        return '&Sc::Spanned(%s, %s)' % (sc(a), 'true' if q == 'Psp' else 'false')
    if t in INTS: return '&Sc::Int("%s")' % t
    if t == 'f32': return '&Sc::F32'
    if t == 'f64': return '&Sc::F64'
    if t == 'bool': return '&Sc::Bool'
    if t == 'P': return '&Sc::P'
    if t == 'Req': return '&Sc::Req'
    if t == 'Value<Span>': return '&Sc::Value'
    if t == 'Literal': return '&Sc::Literal'
    if t in SCALAR_ENUMS:
        return '&Sc::Enum("%s", &[%s])' % (t, ', '.join('"%s"' % kebab(v) for v in SCALAR_ENUMS[t]))
    raise Exception('scalar ' + t)

STR = {'Ps': 'Ps', 'u16': 'U16', 'bool': 'Bool', 'String': 'Text', 'char': 'Char'}
BYT = {'Vec<u8>': 'Vec', 'Pb': 'Pb', 'Box<[u8]>': 'Vec'}

def dm(t, decode, option):
    if decode == 'str':
        if option: t = unwrap_ty(t, 'Option')
        return 'Dm::Str(StrTy::%s)' % STR[t]
    if decode == 'bytes':
        if option: t = unwrap_ty(t, 'Option')
        return 'Dm::Bytes(ByTy::%s)' % BYT[t]
    return 'Dm::Normal(%s)' % sc(t)

def coll(t):
    for w in ('Vec', 'VecDeque'):
        x = unwrap_ty(t, w)
        if x: return 'Coll::List', x
    x = unwrap_ty(t, 'BTreeSet')
    if x: return 'Coll::Set', x
    if t.startswith('Box<[') and t.endswith(']>'): return 'Coll::List', t[5:-2]
    raise Exception('collection ' + t)

def node_ty(t):
    for w in ('Box', 'Rc', 'Arc'):
        x = unwrap_ty(t, w)
        if x: return node_ty(x)
    if t == 'Pn': return 'NodeTy::Probe'
    if t == 'SpannedNode<Span>': return 'NodeTy::Ast'
    if t == 'Node<Span>': return 'NodeTy::AstNode'
    if t.startswith('@'): return 'NodeTy::Shape(&SH_%s)' % t[1:].upper()
    raise Exception('node ' + t)

def part(t):
    for w in ('Box', 'Rc', 'Arc'):
        x = unwrap_ty(t, w)
        if x: return part(x)
    if t == 'Pp': return 'Part::Probe'
    return 'Part::Of("%s", &FL_%s)' % (t[1:], t[1:].upper())

def rust(t): return t.replace('@', '')

def dv(default, t):
    if default is None: return 'None'
    e = 'Default::default()' if default == '' else default
    return 'Some(|| { let x: %s = %s; x.to_val() })' % (rust(t), e)

class F:
    def __init__(self, name, mode, ty, decode=None, default=None, attr_name=None, unwrap=None):
        self.name, self.mode, self.ty = name, mode, ty
        self.decode, self.default, self.attr_name, self.unwrap = decode, default, attr_name, unwrap

def arg(n, t, **k): return F(n, 'argument', t, **k)
def args(n, t, **k): return F(n, 'arguments', t, **k)
def prop(n, t, **k): return F(n, 'property', t, **k)
def props(n, t, **k): return F(n, 'properties', t, **k)
def child(n, t, **k): return F(n, 'child', t, **k)
def children(n, t, **k): return F(n, 'children', t, **k)
def flatc(n, t): return F(n, 'flatten(child)', t)
def flatp(n, t): return F(n, 'flatten(property)', t)
def sp(n, t='Psp'): return F(n, 'span', t)
def nname(n, t='String'): return F(n, 'node_name', t)
def tname(n, t='String'): return F(n, 'type_name', t)
def extra(n, t): return F(n, None, t)
def uw(mode, **k):
    d = dict(mode=mode, decode=None, default=None, attr_name=None, unwrap=None); d.update(k); return d

def attr(mode, attr_name, decode, default, unwrap):
    parts = []
    if mode:
        parts.append(mode + ('(name="%s")' % attr_name if attr_name is not None else ''))
    if decode: parts.append(decode)
    if unwrap: parts.append('unwrap(%s)' % attr(unwrap['mode'], unwrap['attr_name'], unwrap['decode'], unwrap['default'], unwrap['unwrap']))
    if default is not None: parts.append('default' + ('=' + default if default else ''))
    return ', '.join(parts)

counter = [0]

def describe(fields, named):
    """Fields descriptor; extra statics are appended to out."""
    g = dict(spans=[], node_names=[], type_names=[], args=[], props=[], children=[], extra=[])
    va = vp = vc = 'None'
    for i, f in enumerate(fields):
        t, o = f.ty, unwrap_ty(f.ty, 'Option')
        is_opt = o is not None and not getattr(f, 'no_option', False)
        ob = 'true' if is_opt else 'false'
        if f.mode == 'span': g['spans'].append('(%d, %s)' % (i, 'true' if t == 'Psp' else 'false'))
        elif f.mode == 'node_name': g['node_names'].append('(%d, StrTy::%s)' % (i, STR[t]))
        elif f.mode == 'type_name': g['type_names'].append('(%d, StrTy::%s, %s)' % (i, STR[o or t], ob))
        elif f.mode == 'argument':
            g['args'].append('Arg { f: %d, name: %s, option: %s, default: %s, dm: %s }' % (
                i, 'Some("%s")' % f.name.replace('r#', '') if named else 'None', ob, dv(f.default, t), dm(t, f.decode, is_opt)))
        elif f.mode == 'arguments':
            c, e = coll(t); va = 'Some((%d, %s, %s))' % (i, c, dm(e, f.decode, False))
        elif f.mode == 'property':
            g['props'].append('Prop { f: %d, kind: PropKind::Named { name: "%s", option: %s, default: %s, dm: %s } }' % (
                i, f.attr_name if f.attr_name is not None else kebab(f.name), ob, dv(f.default, t), dm(t, f.decode, is_opt)))
        elif f.mode == 'flatten(property)':
            g['props'].append('Prop { f: %d, kind: PropKind::Flat(%s) }' % (i, part(t)))
        elif f.mode == 'properties':
            m = re.match(r'(?:BTreeMap|HashMap|Pairs)<(\w+), (.*)>$', t)
            vp = 'Some((%d, StrTy::%s, %s))' % (i, STR[m.group(1)], dm(m.group(2), f.decode, False))
        elif f.mode == 'child':
            if t == 'bool' and not f.unwrap:
                g['children'].append('Child { f: %d, name: "%s", kind: ChildKind::Bool, ty: NodeTy::None }' % (i, kebab(f.name)))
                continue
            inner = o if (is_opt and f.default is None) else t
            g['children'].append('Child { f: %d, name: "%s", kind: ChildKind::Normal { option: %s, default: %s }, ty: %s }' % (
                i, kebab(f.name), ob, dv(f.default, t), child_ty(f, inner)))
        elif f.mode == 'flatten(child)':
            g['children'].append('Child { f: %d, name: "", kind: ChildKind::Flat(%s), ty: NodeTy::None }' % (i, part(t)))
        elif f.mode == 'children' and f.attr_name is not None:
            c, e = coll(o or t)
            g['children'].append('Child { f: %d, name: "%s", kind: ChildKind::Multi { option: %s, default: %s, coll: %s }, ty: %s }' % (
                i, f.attr_name, ob, dv(f.default, t), c, child_ty(f, e)))
        elif f.mode == 'children':
            c, e = coll(t); vc = 'Some((%d, %s, %s))' % (i, c, child_ty(f, e))
        elif f.mode is None:
            g['extra'].append('(%d, || <%s as Default>::default().to_val())' % (i, rust(t)))
        else: raise Exception(f.mode)
    return ('Fields {{ n: {n}, spans: &[{spans}], node_names: &[{node_names}], type_names: &[{type_names}], args: &[{args}], '
            'var_args: {va}, props: &[{props}], var_props: {vp}, children: &[{children}], var_children: {vc}, extra: &[{extra}] }}').format(
        n=len(fields), va=va, vp=vp, vc=vc, **{k: ', '.join(v) for k, v in g.items()})

def child_ty(f, inner):
    u = f.unwrap
    if not u: return node_ty(inner)
    single = F(f.name, u['mode'], inner, decode=u['decode'], default=u['default'], attr_name=u['attr_name'], unwrap=u['unwrap'])
    single.no_option = True
    counter[0] += 1
    name = 'UW_%d' % counter[0]
    # inside `unwrap` nothing is a flag and nothing is optional
    if u['mode'] == 'child' and inner == 'bool' and not u['unwrap']: raise Exception('bool')
    out.append('pub static %s: Fields = %s;' % (name, describe([single], True)))
    return 'NodeTy::Unwrap(&%s)' % name

def uses(fields, pred):
    return any(pred(f.ty) for f in fields)

def pure_ty(t):
    if re.search(r'\b(P|Ps|Pb|Pn|Pp|Psp)\b', t): return False
    return all(SHAPES[m]['pure'] for m in re.findall(r'@(\w+)', t) if m in SHAPES)

def struct(name, fields, kind='named', default=False, span_type=False):
    """kind: named, tuple, unit"""
    named = kind == 'named'
    has = lambda *m: any(f.mode in m for f in fields)
    specials = has('span', 'node_name', 'type_name')
    doc = not specials and not has('argument', 'arguments', 'property', 'properties', 'flatten(property)')
    span_type = span_type or uses(fields, lambda t: 'Span>' in t or t == 'Span' or 'Spanned<' in t or any(SHAPES[m]['span_type'] for m in re.findall(r'@(\w+)', t) if m in SHAPES))
    SHAPES[name] = dict(doc=doc, span_type=span_type, pure=True)
    SHAPES[name]['pure'] = all(pure_ty(f.ty) for f in fields)
    ORDER.append(name)
    d = describe(fields, named)
    o = []
    o.append('#[derive(knuffel::Decode%s)]' % (', Default' if default else ''))
    if span_type: o.append('#[knuffel(span_type=Span)]')
    if kind == 'unit': o.append('pub struct %s;' % name)
    else:
        body = []
        for f in fields:
            a = attr(f.mode, f.attr_name, f.decode, f.default, f.unwrap)
            body.append('%spub %s%s' % ('#[knuffel(%s)] ' % a if a else '', f.name + ': ' if named else '', rust(f.ty)))
        o.append('pub struct %s %s %s %s%s' % (name, '{' if named else '(', ', '.join(body), '}' if named else ')', '' if named else ';'))
    vals = ', '.join('self.%s.to_val()' % (f.name if named else str(i)) for i, f in enumerate(fields)) if kind != 'unit' else ''
    o.append('impl ToVal for %s { fn to_val(&self) -> Val { Val::St("%s", vec![%s]) } }' % (name, name, vals))
    o.append('pub static FL_%s: Fields = %s;' % (name.upper(), d))
    o.append('pub static SH_%s: Shape = Shape::Struct("%s", &FL_%s);' % (name.upper(), name, name.upper()))
    out.append('\n'.join(o))

def newtype(name, t):
    x = unwrap_ty(t, 'Option')
    st = any(SHAPES[m]['span_type'] for m in re.findall(r'@(\w+)', t))
    assert not st
    SHAPES[name] = dict(doc=False, span_type=False, pure=pure_ty(t))
    ORDER.append(name)
    out.append('\n'.join([
        '#[derive(knuffel::Decode)]', 'pub struct %s(pub %s);' % (name, rust(t)),
        'impl ToVal for %s { fn to_val(&self) -> Val { Val::St("%s", vec![self.0.to_val()]) } }' % (name, name),
        'pub static SH_%s: Shape = Shape::%s("%s", %s);' % (name.upper(), 'NewOpt' if x else 'New', name, node_ty(x or t))]))

def enum(name, variants):
    """variants: (ident, None | node type string | list of F); skip marked by ('!Ident', ...)"""
    tys = []
    for v in variants:
        if isinstance(v[1], str): tys.append(v[1])
        elif v[1]: tys += [f.ty for f in v[1]]
    span_type = any('Span>' in t or 'Spanned<' in t or any(SHAPES[m]['span_type'] for m in re.findall(r'@(\w+)', t) if m in SHAPES) for t in tys)
    SHAPES[name] = dict(doc=False, span_type=span_type, pure=True)
    SHAPES[name]['pure'] = all(pure_ty(t) for t in tys)
    ORDER.append(name)
    body, arms, desc = [], [], []
    for ident, v in variants:
        skip = ident.startswith('!')
        ident = ident.lstrip('!')
        pre = '#[knuffel(skip)] ' if skip else ''
        if v is None:
            body.append(pre + ident); arms.append('%s::%s => Val::St("%s", vec![])' % (name, ident, ident)); k = 'VarKind::Unit'
        elif isinstance(v, str):
            body.append('%s%s(%s)' % (pre, ident, rust(v)))
            arms.append('%s::%s(a) => Val::St("%s", vec![a.to_val()])' % (name, ident, ident))
            x = unwrap_ty(v, 'Option')
            k = ('VarKind::NestedOpt(%s)' if x else 'VarKind::Nested(%s)') % node_ty(x or v)
        else:
            fs = []
            for f in v:
                a = attr(f.mode, f.attr_name, f.decode, f.default, f.unwrap)
                fs.append(('#[knuffel(%s)] ' % a if a else '') + rust(f.ty))
            body.append('%s%s(%s)' % (pre, ident, ', '.join(fs)))
            xs = ['a%d' % i for i in range(len(v))]
            arms.append('%s::%s(%s) => Val::St("%s", vec![%s])' % (name, ident, ', '.join(xs), ident, ', '.join(x + '.to_val()' for x in xs)))
            counter[0] += 1
            n = 'EV_%d' % counter[0]
            out.append('pub static %s: Fields = %s;' % (n, describe(v, False)))
            k = 'VarKind::Tuple(&%s)' % n
        if not skip: desc.append('Variant { ident: "%s", name: "%s", kind: %s }' % (ident, kebab(ident), k))
    out.append('\n'.join([
        '#[derive(knuffel::Decode)]', '#[knuffel(span_type=Span)]' if span_type else '',
        '#[allow(dead_code)]', 'pub enum %s { %s }' % (name, ', '.join(body)),
        'impl ToVal for %s { fn to_val(&self) -> Val { match self { %s } } }' % (name, ', '.join(arms)),
        'pub static SH_%s: Shape = Shape::Enum("%s", &[%s]);' % (name.upper(), name, ', '.join(desc))]))

def scalar_enum(name, variants):
    SCALAR_ENUMS[name] = variants
    out.append('\n'.join([
        '#[derive(knuffel::DecodeScalar, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]',
        'pub enum %s { %s }' % (name, ', '.join(variants)),
        'impl Default for %s { fn default() -> Self { %s::%s } }' % (name, name, variants[0]),
        'impl ToVal for %s { fn to_val(&self) -> Val { Val::St(match self { %s }, vec![]) } }' % (
            name, ', '.join('%s::%s => "%s"' % (name, v, kebab(v)) for v in variants))]))

# ------------------------------------------------------------ hand-written
scalar_enum('Mode', ['Fast', 'SlowAndSteady', 'None'])
scalar_enum('Wide', ['A', 'B', 'HttpServer', 'X1', 'D'])

struct('Empty', [], kind='unit')
struct('NoFields', [])
struct('OneArg', [arg('name', 'String')])
struct('Ints', [arg('a', 'u8'), arg('b', 'i64'), prop('c', 'Option<u16>'), prop('d', 'i8', default='')])
struct('Ints2', [arg('a', 'i16'), arg('b', 'u32', default='7'), prop('c', 'u64'), prop('d', 'Option<isize>'), prop('e', 'Option<usize>', default='Some(9)'), prop('f', 'i32', default='-3')])
struct('Floats', [arg('a', 'f64'), prop('b', 'Option<f32>'), prop('c', 'f64', default='1.5')])
struct('Texts', [arg('a', 'String'), arg('b', 'Option<PathBuf>'), prop('c', 'Arc<str>'), prop('d', 'Option<Arc<Path>>'), prop('e', 'bool', default='true')])
struct('Enums', [arg('a', 'Mode'), prop('b', 'Option<Wide>'), prop('c', 'Mode', default='Mode::SlowAndSteady')])
struct('OptArgs', [arg('a', 'Option<String>'), arg('b', 'Option<u8>', default='Some(3)'), arg('c', 'String', default='"dflt".into()'), arg('d', 'Option<bool>')])
struct('ReqAfterOpt', [arg('a', 'Option<u8>'), arg('r#type', 'String'), args('rest', 'Vec<Option<i32>>')])
struct('VarArgs', [arg('first', 'u8'), args('rest', 'Vec<String>')])
struct('SetArgs', [args('all', 'BTreeSet<String>'), prop('n', 'Option<i8>')])
struct('DequeArgs', [args('all', 'VecDeque<Mode>')])
struct('BoxArgs', [args('all', 'Box<[u16]>'), props('p', 'BTreeMap<String, bool>')])
struct('StrMode', [arg('a', 'u16', decode='str'), arg('b', 'Option<Ps>', decode='str'), prop('c', 'char', decode='str'), prop('d', 'Option<bool>', decode='str'), prop('e', 'String', decode='str', default='"zz".into()')])
struct('StrVar', [args('a', 'Vec<Ps>', decode='str'), props('p', 'BTreeMap<Ps, u16>', decode='str')])
struct('BytesMode', [arg('a', 'Vec<u8>', decode='bytes'), arg('b', 'Option<Pb>', decode='bytes'), prop('c', 'Pb', decode='bytes'), prop('d', 'Option<Vec<u8>>', decode='bytes'), prop('e', 'Vec<u8>', decode='bytes', default='vec![1]')])
struct('BytesVar', [args('a', 'Vec<Box<[u8]>>', decode='bytes'), props('p', 'HashMap<String, Pb>', decode='bytes')])
struct('PropNames', [prop('a', 'u8', attr_name='odd name'), prop('b', 'Option<String>', attr_name=''), prop('some_long_name', 'i8', default=''), prop('r#match', 'Option<bool>')])
struct('VarProps', [prop('fixed', 'Option<u8>'), props('rest', 'HashMap<String, i32>')])
struct('VarPropsPairs', [props('rest', 'Pairs<Ps, P>')])
struct('VarPropsNum', [props('rest', 'BTreeMap<u16, String>')])
struct('OptProps', [prop('a', 'Option<String>', default='Some("d".into())'), prop('b', 'Option<Ps>', decode='str', default='Some(Ps("q".into()))'), prop('c', 'Option<Vec<u8>>', decode='bytes', default='Some(vec![2])'), prop('d', 'Option<P>', default='')])
struct('Flags', [child('quiet', 'bool'), child('very_loud', 'bool'), arg('n', 'Option<u8>')])
struct('Kids', [child('one', '@OneArg'), child('two', 'Option<@Ints>'), child('probe', 'Option<Pn>'), child('flag', 'bool')])
struct('KidsBoxed', [child('one', 'Box<@OneArg>'), child('two', 'Option<Rc<@Flags>>'), child('three', 'Arc<Pn>')])
struct('KidsDefault', [child('a', '@Dflt', default=''), child('b', '@Dflt', default='Dflt { x: Some(4), y: true }')]) if False else None
struct('Dflt', [prop('x', 'Option<u8>'), child('y', 'bool')], default=True)
struct('KidsDefault', [child('a', '@Dflt', default=''), child('b', '@Dflt', default='Dflt { x: Some(4), y: true }'), child('c', 'Option<@Dflt>')])
struct('Multi', [children('items', 'Vec<@OneArg>', attr_name='item'), children('probes', 'Vec<Pn>', attr_name='probe'), child('flag', 'bool')])
struct('MultiOpt', [children('items', 'Option<Vec<@OneArg>>', attr_name='item'), children('dq', 'VecDeque<Pn>', attr_name='dq', default='VecDeque::new()'), arg('a', 'Option<P>')])
struct('MultiDef', [children('items', 'Vec<String>', attr_name='item', unwrap=uw('argument'), default='vec!["z".into()]'), children('o', 'Option<Vec<u8>>', attr_name='o', unwrap=uw('argument'), default='Some(vec![7])')])
struct('CatchAll', [child('named', 'Option<@OneArg>'), children('rest', 'Vec<Pn>')])
struct('CatchAll2', [children('x', 'Vec<u8>', attr_name='x', unwrap=uw('argument')), child('flag', 'bool'), children('rest', 'Vec<@OneArg>')])
struct('UnwrapArg', [child('name', 'String', unwrap=uw('argument')), child('age', 'Option<u8>', unwrap=uw('argument')), child('tags', 'Vec<String>', unwrap=uw('arguments')), child('opt', 'Option<i8>', unwrap=uw('argument'), default='Some(5)')])
struct('UnwrapProp', [child('size', 'u32', unwrap=uw('property', attr_name='px')), child('kind', 'Option<Mode>', unwrap=uw('property')), child('all', 'Option<BTreeMap<String, i64>>', unwrap=uw('properties'))])
struct('UnwrapKid', [child('inner', '@OneArg', unwrap=uw('child')), child('list', 'Option<Vec<Pn>>', unwrap=uw('children', attr_name='li')), child('any', 'Vec<@OneArg>', unwrap=uw('children'), default='')])
struct('UnwrapDeep', [child('deep', 'String', unwrap=uw('child', unwrap=uw('argument'))), child('deeper', 'Option<u8>', unwrap=uw('child', unwrap=uw('child', unwrap=uw('property', attr_name='v')))), child('lst', 'Option<Vec<P>>', unwrap=uw('children', attr_name='e', unwrap=uw('argument')))])
struct('UnwrapModes', [child('s', 'Ps', unwrap=uw('argument', decode='str')), child('b', 'Option<Pb>', unwrap=uw('argument', decode='bytes')), child('p', 'Option<u16>', unwrap=uw('property', decode='str', attr_name='k')), child('d', 'u8', unwrap=uw('argument', default='42'), default='1')])
struct('UnwrapMulti', [children('vals', 'Vec<u8>', attr_name='val', unwrap=uw('argument')), children('names', 'BTreeSet<String>', attr_name='name', unwrap=uw('argument')), children('rest', 'Vec<Mode>', unwrap=uw('property', attr_name='m'))])
struct('UnwrapBool', [child('on', 'bool', unwrap=uw('argument')), child('off', 'Option<bool>', unwrap=uw('argument'))])
struct('Named', [nname('name', 'Ps'), tname('ty', 'Option<Ps>'), sp('at'), arg('x', 'Option<u8>')])
struct('Named2', [nname('name'), tname('ty', 'String'), sp('at', 'Span'), sp('at2')])
struct('NameNum', [nname('name', 'u16'), tname('ty', 'Option<bool>'), children('c', 'Vec<Pn>')])
struct('SpanScal', [arg('a', 'Spanned<String, Span>'), prop('b', 'Option<Spanned<u8, Psp>>'), prop('c', 'Spanned<Option<P>, Psp>')])
struct('AstVals', [arg('a', 'Value<Span>'), prop('b', 'Option<Value<Span>>'), prop('c', 'Option<Literal>'), args('r', 'Vec<Spanned<Value<Span>, Span>>')])
struct('AstKids', [child('a', 'Option<SpannedNode<Span>>'), child('b', 'Option<Node<Span>>'), children('r', 'Vec<SpannedNode<Span>>')])
struct('Wrapped', [arg('a', 'Box<u8>'), arg('b', 'Option<Rc<String>>'), prop('c', 'Arc<P>'), prop('d', 'Option<Box<Mode>>')])
struct('Probes', [arg('a', 'P'), arg('b', 'Option<P>'), prop('c', 'P'), prop('d', 'Option<P>'), child('k', 'Option<Pn>'), children('ks', 'Vec<Pn>')])
struct('Probes2', [sp('s'), nname('n', 'Ps'), args('a', 'Vec<P>'), props('p', 'BTreeMap<Ps, P>'), children('ks', 'Vec<Pn>')])
struct('Probes3', [args('a', 'Vec<Option<P>>'), child('u', 'Option<P>', unwrap=uw('argument')), children('m', 'Vec<Pn>', attr_name='m'), child('f', 'bool')])
struct('PartProps', [prop('pa', 'Option<u8>'), prop('pb', 'Option<P>'), prop('pc', 'Option<Ps>', decode='str')], default=True)
struct('PartKids', [child('ka', 'Option<@OneArg>'), child('kb', 'bool'), child('kc', 'Option<Pn>'), child('kd', 'Option<u8>', unwrap=uw('argument'))], default=True)
struct('PartNest', [prop('own', 'Option<u8>'), flatp('inner', '@PartProps'), child('mine', 'bool')], default=True)
struct('PartNestK', [child('own', 'Option<Pn>'), flatc('inner', 'Box<@PartKids>'), extra('cache', 'u8')], default=True)
struct('FlatP', [arg('a', 'Option<u8>'), prop('x', 'u8'), flatp('fl', '@PartProps'), prop('pa', 'Option<String>')])
struct('FlatP2', [flatp('fl', 'Rc<@PartNest>'), flatp('pp', 'Arc<Pp>'), props('rest', 'BTreeMap<String, P>')])
struct('FlatP3', [flatp('pp', 'Box<Pp>'), prop('pa', 'Option<u8>'), prop('z', 'Option<P>')])
struct('FlatK', [child('first', 'Option<@OneArg>'), flatc('fl', '@PartKids'), child('ka', 'Option<Pn>'), arg('a', 'Option<P>')])
struct('FlatK2', [flatc('fl', '@PartNestK'), flatc('pp', 'Pp'), children('rest', 'Vec<Pn>')])
struct('FlatK3', [flatc('pp', 'Arc<Pp>'), child('pq', 'bool'), child('z', '@OneArg')])
struct('FlatBoth', [flatp('a', '@PartProps'), flatc('b', '@PartKids')])
struct('Extra', [arg('a', 'u8'), extra('cache', 'Option<u64>'), prop('b', 'Option<u8>'), extra('list', 'Vec<u8>'), child('c', 'bool'), extra('n', 'i32')])
struct('Tup1', [arg('', 'u8')], kind='tuple')
struct('Tup3', [arg('', 'String'), prop('', 'Option<P>', attr_name='p'), args('', 'Vec<i16>')], kind='tuple')
struct('TupX', [sp(''), nname('', 'Ps'), extra('', 'u8'), arg('', 'Option<Mode>'), children('', 'Vec<Pn>')], kind='tuple')
struct('TupU', [children('', 'Vec<String>', unwrap=uw('argument'))], kind='tuple')
struct('TupM', [children('', 'Vec<Pn>', attr_name='m'), extra('', 'u8'), children('', 'Vec<@OneArg>')], kind='tuple')
newtype('New1', '@Probes')
newtype('NewOpt', 'Option<@Ints>')
newtype('NewProbe', 'Pn')
enum('Simple', [('Start', None), ('StopNow', None)])
enum('Mixed', [('Plain', None), ('Full', '@Ints'), ('Maybe', 'Option<@Texts>'), ('Boxed', 'Box<@Kids>'), ('Tup', [arg('', 'u8'), prop('', 'Option<P>', attr_name='p'), args('', 'Vec<String>')]), ('!Hidden', None), ('PItem', 'Pn')])
enum('Three', [('A', 'Option<Pn>'), ('LongName', [children('', 'Vec<Pn>')]), ('C', '@New1')])
enum('One', [('Only', [args('', 'Vec<P>'), props('', 'BTreeMap<String, Option<u8>>'), children('', 'Vec<@Simple>')])])
struct('Tree', [arg('v', 'Option<i64>'), children('kids', 'Vec<@Tree>')])
struct('TreeBox', [prop('l', 'Option<Ps>', decode='str'), child('left', 'Option<Box<@TreeBox>>'), child('right', 'Option<Box<@TreeBox>>'), children('more', 'Vec<@Mixed>', attr_name='plain')])
struct('Doc1', [child('version', 'u8', unwrap=uw('argument')), children('items', 'Vec<@Ints>', attr_name='item'), child('strict', 'bool')])
struct('Doc2', [child('name', 'Option<String>', unwrap=uw('argument')), children('rest', 'Vec<@Mixed>')])
struct('Doc3', [flatc('fl', '@PartKids'), child('must', '@OneArg'), children('x', 'Option<Vec<Pn>>', attr_name='x'), extra('c', 'u8')])
struct('Doc4', [child('a', 'Option<Pn>'), child('b', 'Pn'), child('c', 'Option<u8>', unwrap=uw('argument'), default='Some(8)'), children('ks', 'Vec<@Probes>')])
struct('Doc5', [children('all', 'Vec<@Three>')])
struct('Doc6', [child('server', '@Kids'), child('client', 'Option<@UnwrapArg>'), children('user', 'Vec<@Probes2>', attr_name='user'), flatc('p', 'Pp')])
struct('OptLists', [children('items', 'Option<Vec<@OneArg>>', attr_name='item'), children('nums', 'Option<VecDeque<u8>>', attr_name='num', unwrap=uw('argument')), prop('p', 'Option<P>'), child('flag', 'bool')])
struct('Big', [arg('a%d' % i, t) for i, t in enumerate(['u8', 'String', 'bool', 'P', 'i64', 'Mode', 'f64', 'Option<u16>', 'Option<P>', 'Option<String>'])]
    + [prop('p%d' % i, t) for i, t in enumerate(['u8', 'Option<String>', 'P', 'Option<i8>', 'Option<P>', 'bool', 'Option<Mode>', 'Option<u32>', 'Option<f32>', 'Option<P>'])]
    + [child('c%d' % i, t) for i, t in enumerate(['bool', 'Option<@OneArg>', 'Pn', 'bool', 'Option<Pn>', '@Flags', 'bool', 'Option<@Texts>', 'bool', 'Option<Pn>'])]
    + [children('ls', 'Vec<Pn>', attr_name='l'), children('rest', 'Vec<@Mixed>')])
enum('Dozen', [(n, k) for n, k in zip(['January', 'FebruaryTwo', 'Mar', 'Apr', 'MayMay', 'Jun', 'July7', 'AUG', 'SepT', 'O', 'NovEmber', 'Dec12'], [None, '@OneArg', None, 'Option<@Ints>', 'Pn', None, '@Flags', 'Option<Pn>', None, '@Texts', [arg('', 'P'), children('', 'Vec<Pn>')], '@New1'])])

struct('RawWrap', [arg('a', 'Raw<Option<u8>>'), arg('b', 'Option<Raw<Box<P>>>'), prop('c', 'Raw<Arc<Option<Mode>>>'), prop('d', 'Option<Raw<Rc<String>>>'), prop('e', 'Option<Raw<Box<Option<P>>>>'), args('r', 'Vec<Raw<Rc<Option<Arc<i16>>>>>')])
struct('Needs', [arg('a', 'Req'), arg('b', 'Option<Raw<Box<Req>>>'), prop('c', 'Raw<Rc<Req>>'), prop('d', 'Option<Arc<Req>>'), prop('e', 'Option<Raw<Arc<Option<Req>>>>'), prop('f', 'Option<Spanned<Req, Span>>'), args('r', 'Vec<Raw<Spanned<Box<Req>, Psp>>>')])
struct('ValWrap', [arg('a', 'Box<Value<Span>>'), arg('b', 'Option<Rc<Value<Span>>>'), prop('c', 'Option<Arc<Value<Span>>>'), prop('d', 'Option<Box<Literal>>'), prop('e', 'Option<Rc<Option<Value<Span>>>>'), prop('f', 'Option<Arc<Spanned<Literal, Span>>>'), args('r', 'Vec<Rc<Spanned<Arc<Value<Span>>, Span>>>')])
struct('RawSpan', [arg('a', 'Raw<Spanned<Option<i16>, Psp>>'), arg('b', 'Option<Raw<Option<Spanned<P, Span>>>>'), prop('c', 'Option<Raw<Literal>>'), prop('d', 'Option<Box<Spanned<Mode, Span>>>'), prop('e', 'Option<Raw<Arc<str>>>'), prop('f', 'Option<Raw<Arc<Path>>>'), args('r', 'Vec<Raw<Arc<Spanned<Box<f64>, Psp>>>>')])
struct('OptNest', [arg('a', 'Box<Option<u8>>'), arg('b', 'Option<Box<Option<P>>>'), prop('c', 'Arc<Option<String>>'), prop('d', 'Option<Arc<Option<bool>>>', default=''), props('p', 'BTreeMap<String, Rc<Option<i8>>>')])

# ---------------------------------------------------------------- random
rng = random.Random(20231118)
HAND = [n for n in ORDER]
LEAVES = ['@OneArg', '@Ints', '@Flags', '@Texts', '@Simple', '@OptArgs', '@Tup1', '@NewOpt', '@Empty', '@VarArgs', 'Pn', 'Pn', '@Mixed', '@StrMode', '@BytesMode', '@Dflt']

def r_scalar():
    return rng.choice(INTS + ['f32', 'f64', 'String', 'String', 'PathBuf', 'Arc<str>', 'bool', 'Mode', 'Wide', 'P', 'P', 'P', 'Box<u8>', 'Rc<P>'])
DEFAULTS = {'String': '"d".into()', 'bool': 'true', 'f64': '0.25', 'Mode': 'Mode::None', 'Wide': 'Wide::X1'}
def r_default(t):
    if rng.random() < .6: return None
    x = unwrap_ty(t, 'Option')
    if x:
        y = r_expr(x)
        return rng.choice(['', 'Some(%s)' % y if y else 'None'])
    return r_expr(t) or ''
def r_expr(t):
    if t in INTS: return str(rng.randint(0, 9))
    return DEFAULTS.get(t)
def r_value():
    """(type, decode, default)"""
    m = rng.random()
    if m < .65:
        t = r_scalar()
        if rng.random() < .4: t = 'Option<%s>' % t
        return t, None, r_default(t)
    if m < .85:
        t = rng.choice(['Ps', 'u16', 'char', 'String', 'bool'])
        if rng.random() < .4: t = 'Option<%s>' % t
        return t, 'str', None
    t = rng.choice(['Pb', 'Vec<u8>'])
    if rng.random() < .4: t = 'Option<%s>' % t
    return t, 'bytes', None
def r_elem():
    m = rng.random()
    if m < .7: return rng.choice(['String', 'u8', 'i32', 'Mode', 'P', 'Option<P>', 'Option<u8>', 'f64']), None
    if m < .88: return rng.choice(['Ps', 'u16']), 'str'
    return rng.choice(['Pb', 'Vec<u8>']), 'bytes'
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'epsilon_x', 'zeta', 'eta', 'theta', 'iota', 'p_k', 'p_l', 'mu']
def r_unwrap(depth=0):
    """attributes and field type"""
    m = rng.random()
    if m < .45:
        t, d, _ = r_value()
        t = unwrap_ty(t, 'Option') or t
        return uw('argument', decode=d), t
    if m < .6:
        t, d, _ = r_value()
        t = unwrap_ty(t, 'Option') or t
        return uw('property', decode=d, attr_name=rng.choice([None, 'k', 'v x'])), t
    if m < .7:
        e, d = r_elem()
        return uw('arguments', decode=d), 'Vec<%s>' % e
    if m < .8:
        e, d = r_elem()
        return uw('properties', decode=d), 'BTreeMap<%s, %s>' % (rng.choice(['String', 'Ps']), e)
    if m < .9 or depth > 1:
        return uw('children', attr_name=rng.choice([None, 'li'])), 'Vec<%s>' % rng.choice(LEAVES)
    u, t = r_unwrap(depth + 1)
    return uw('child', unwrap=u), t

def r_struct(i):
    names = NAMES[:]
    rng.shuffle(names)
    nm = lambda: names.pop()
    fs = []
    doc = i % 5 == 4
    if not doc:
        if rng.random() < .25: fs.append(sp(nm()))
        if rng.random() < .2: fs.append(nname(nm(), rng.choice(['Ps', 'String'])))
        if rng.random() < .25: fs.append(tname(nm(), rng.choice(['Ps', 'Option<Ps>', 'Option<String>', 'Option<Ps>'])))
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            t, d, df = r_value()
            fs.append(arg(nm(), t, decode=d, default=df))
        if rng.random() < .3:
            e, d = r_elem()
            fs.append(args(nm(), rng.choice(['Vec', 'Vec', 'VecDeque']) + '<%s>' % e, decode=d))
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < .2: fs.append(flatp(nm(), rng.choice(['@PartProps', '@PartNest', 'Pp', 'Box<Pp>'])))
            else:
                t, d, df = r_value()
                fs.append(prop(nm(), t, decode=d, default=df, attr_name=rng.choice([None, None, None, 'x y'])))
        # a name may be used once only
        seen = set(); fs2 = []
        for f in fs:
            if f.mode == 'property':
                k = f.attr_name if f.attr_name is not None else kebab(f.name)
                if k in seen: continue
                seen.add(k)
            fs2.append(f)
        fs = fs2
        if rng.random() < .25:
            e, d = r_elem()
            fs.append(props(nm(), 'BTreeMap<%s, %s>' % (rng.choice(['String', 'Ps']), e), decode=d))
    kn = rng.choice([0, 1, 2, 3]) if not doc else rng.choice([2, 3, 4])
    for _ in range(kn):
        m = rng.random()
        n = nm()
        if m < .15: fs.append(child(n, 'bool'))
        elif m < .4:
            t = rng.choice(LEAVES)
            if rng.random() < .25: t = 'Box<%s>' % t
            if rng.random() < .5: t = 'Option<%s>' % t
            fs.append(child(n, t))
        elif m < .65:
            u, t = r_unwrap()
            if rng.random() < .5: t = 'Option<%s>' % t
            fs.append(child(n, t, unwrap=u))
        elif m < .8:
            fs.append(children(n, 'Vec<%s>' % rng.choice(LEAVES), attr_name=kebab(n)))
        elif m < .9:
            u, t = r_unwrap()
            fs.append(children(n, 'Vec<%s>' % t, attr_name=kebab(n), unwrap=u))
        else: fs.append(flatc(n, rng.choice(['@PartKids', '@PartNestK', 'Pp', 'Rc<Pp>'])))
    if rng.random() < .3:
        fs.append(children(nm(), 'Vec<%s>' % rng.choice(LEAVES)))
    if rng.random() < .2: fs.append(extra(nm(), 'Option<u8>'))
    # keep groups in order but let groups interleave
    groups = {}
    for f in fs: groups.setdefault({'argument': 0, 'arguments': 0, 'property': 1, 'properties': 1, 'flatten(property)': 1, 'child': 2, 'children': 2, 'flatten(child)': 2}.get(f.mode, 3), []).append(f)
    res = []
    while groups:
        k = rng.choice(sorted(groups))
        res.append(groups[k].pop(0))
        if not groups[k]: del groups[k]
    struct('Rnd%d' % i, res)

for i in range(44): r_struct(i)
for i in range(6):
    vs = []
    for v in rng.sample(['Alpha', 'BetaTwo', 'Gamma', 'HTTPThing', 'Z', 'Delta9'], rng.randint(2, 5)):
        m = rng.random()
        if m < .2: vs.append((v, None))
        elif m < .45: vs.append((v, rng.choice([x for x in LEAVES if x != '@Empty'])))
        elif m < .6: vs.append((v, 'Option<%s>' % rng.choice(LEAVES)))
        else:
            fs = []
            for _ in range(rng.choice([1, 2])):
                t, d, df = r_value(); fs.append(arg('', t, decode=d, default=df))
            if rng.random() < .5:
                t, d, df = r_value(); fs.append(prop('', t, decode=d, default=df, attr_name='k'))
            if rng.random() < .4: fs.append(children('', 'Vec<%s>' % rng.choice(LEAVES)))
            vs.append((v, fs))
    enum('RndE%d' % i, vs)

# -------------------------------------------------------------- dispatch
lines = [n for i, n in enumerate(ORDER) if not SHAPES[n]['span_type'] and (n in HAND and i % 2 == 0 or i % 4 == 0)]
disp = []
disp.append('pub static CATALOG: &[Entry] = &[\n%s\n];' % '\n'.join(
    '    Entry { name: "%s", shape: &SH_%s, doc: %s, lines: %s, pure: %s },' % (n, n.upper(), str(SHAPES[n]['doc']).lower(), str(n in lines).lower(), str(SHAPES[n]['pure']).lower()) for n in ORDER))
def table(fn, sig, body, which):
    disp.append('pub fn %s {\n    match id {\n%s\n        _ => unreachable!(),\n    }\n}' % (sig, '\n'.join(
        '        %d => %s,' % (ORDER.index(n), body % n) for n in which)))
table('list', "pub fn list(id: usize, file: &str, text: &str, f: SetCtx<Span>) -> Result<Val, Error>".replace('pub fn ', ''), 'list_as::<%s, Span>(file, text, f)', ORDER)
table('list_lines', "list_lines(id: usize, file: &str, text: &str, f: SetCtx<LineSpan>) -> Result<Val, Error>", 'list_as::<%s, LineSpan>(file, text, f)', lines)
table('doc', "doc(id: usize, file: &str, text: &str, f: SetCtx<Span>) -> Result<Val, Error>", 'doc_as::<%s, Span>(file, text, f)', [n for n in ORDER if SHAPES[n]['doc']])
table('node', "node(id: usize, n: &SpannedNode<Span>) -> Result<Val, Vec<DecodeError<Span>>>", 'node_as::<%s>(n)', ORDER)

HEAD = '''// @generated by tools/mkshapes.py
#![allow(dead_code, unused_imports, unused_mut, unused_variables, clippy::all)]
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use knuffel::ast::{Literal, Node, SpannedNode, Value};
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::Error;

use super::load::{doc_as, list_as, node_as, SetCtx};
use super::probe::{P, Pb, Pn, Pp, Ps, Psp, Raw, Req};
use super::shape::*;
use super::val::{Pairs, ToVal, Val};
'''
open(OUT, 'w').write(HEAD + '\n' + '\n\n'.join(out) + '\n\n' + '\n\n'.join(disp) + '\n')
print(len(ORDER), 'types,', len(lines), 'in both modes,', sum(SHAPES[n]['doc'] for n in ORDER), 'documents')
