#!/usr/bin/env python3
"""Maintenance tool (not run by any check): registry.in -> shim/src/calls.rs"""
import re, sys
rows = [l.split() for l in open(sys.argv[1])]
groups = {}
for i, n, g, f in rows: groups.setdefault(g, []).append((i, n, f))
TOK = re.compile(r'(PlMu8_|PlMu16_|PlMi16_|PlAu8_|PlAu16_|Plu8_|Plu16_|Pli16_|BiMu8_|BiMu16_|Biu8_|Biu16_|GrMu8_|GrMu16_|Gru8_|Gru16_|GrAu8_|GrAu16_|PkMu8_|PkMu16_|Pku8_|Pku16_|Su8_|Su16_|Sf16_|Du8_|Du16_|Df16_|Rot|Mir|[RXMPOGDZ])')
IMG = {'Pl': ('YuvPlanarImage', ['y', 'u', 'v']), 'PlA': ('YuvPlanarImageWithAlpha', ['y', 'u', 'v', 'a']),
       'Bi': ('YuvBiPlanarImage', ['y', 'uv']), 'Gr': ('YuvGrayImage', ['y']), 'GrA': ('YuvGrayAlphaImage', ['y', 'a']),
       'Pk': ('YuvPackedImage', ['yuy']), 'PlM': ('YuvPlanarImageMut', ['y', 'u', 'v']), 'BiM': ('YuvBiPlanarImageMut', ['y', 'uv']),
       'GrM': ('YuvGrayImageMut', ['y']), 'PkM': ('YuvPackedImageMut', ['yuy'])}
print('// Generated by tools/gen_calls.py from registry.in\nuse super::*;\n')
for g, fns in sorted(groups.items()):
    toks = TOK.findall(g); assert ''.join(toks) == g, g
    # which D is what: strides / dims / bit depth. Work out from position.
    feat = 'nightly_f16' if 'f16' in g else ('geometry' if 'Rot' in g or 'Mir' in g else ('rdp' if 'i16' in g else None))
    imgs = [t for t in toks if t.endswith('_')]
    def nplanes(t):
        k = re.match(r'(PlM|PlA|Pl|BiM|Bi|GrM|GrA|Gr|PkM|Pk|S|D)', t).group(1)
        return k, (1 if k in 'SD' else len(IMG[k][1]))
    ins = [t for t in imgs if nplanes(t)[0] in ('S', 'Pl', 'PlA', 'Bi', 'Gr', 'GrA', 'Pk')]
    outs = [t for t in imgs if t not in ins]
    base = {}; p = 0
    for t in ins + outs: base[t] = p; p += nplanes(t)[1]
    pre = []; args = []; tys = []; post = []
    raw = all(nplanes(t)[0] in 'SD' for t in imgs)
    last = None; zc = 0
    dimnames_left = None
    scal = [t for t in toks if t in ('D', 'Z')]
    # for raw functions: stride follows each slice (possibly after nothing); remaining scalars: [depth] w h
    rem = []
    seen = None
    order = []
    for t in toks:
        if t.endswith('_'):
            order.append(('img', t)); seen = t if nplanes(t)[0] in 'SD' else None
        elif t in 'DZ' and seen:
            order.append(('stride', seen, t)); seen = None
        elif t in ('D', 'Z'):
            order.append(('scalar', t)); rem.append(t)
        else: order.append(('o', t))
    k = len(rem); si = 0
    for o in order:
        if o[0] == 'img':
            t = o[1]; kind, n = nplanes(t); el = re.search(r'(u8|u16|i16|f16)_$', t).group(1); b = base[t]
            if kind == 'S': args.append(f'sl::<{el}>(d, {b})'); tys.append(f'&[{el}]')
            elif kind == 'D': args.append(f'slm::<{el}>(d, {b})'); tys.append(f'&mut [{el}]')
            else:
                ty, pl = IMG[kind]; v = f'im{b}'
                mut = kind in ('PlM', 'BiM', 'GrM', 'PkM')
                flds = []
                for j, nm in enumerate(pl):
                    fn = nm if nm == 'yuy' else nm + '_plane'
                    flds.append(f'{fn}: ' + (f'BufferStoreMut::Borrowed(slm::<{el}>(d, {b+j}))' if mut else f'sl::<{el}>(d, {b+j})') + f', {nm}_stride: st(d, {b+j})')
                ctor = f'{ty} {{ {", ".join(flds)}, width: d.w as u32, height: d.h as u32 }}'
                if mut and kind != 'PkM':
                    al = f'{ty}::<{el}>::alloc(d.w as u32, d.h as u32' + ('' if kind == 'GrM' else ', ss(d)') + ')'
                    pre.append(f'let mut {v} = if d.alloc != 0 {{ {al} }} else {{ {ctor} }};')
                    for j, nm in enumerate(pl):
                        post.append(f'if d.alloc != 0 {{ give(d, {b+j}, {v}.{nm}_plane.borrow(), {v}.{nm}_stride); }}')
                else:
                    pre.append(f'let {"mut " if mut else ""}{v} = {ctor};')
                args.append(f'&mut {v}' if mut else f'&{v}'); tys.append(('&mut ' if mut else '&') + f'{ty}<{el}>')
        elif o[0] == 'stride':
            args.append(f'st(d, {base[o[1]]})' if o[2] == 'D' else f'd.planes[{base[o[1]]}].stride as usize')
            tys.append('u32' if o[2] == 'D' else 'usize')
        elif o[0] == 'scalar':
            names = {1: ['depth'], 2: ['w', 'h'], 3: ['depth', 'w', 'h']}[k]
            nm = names[si]; si += 1; t = 'u32' if o[1] == 'D' else 'usize'
            args.append(f'd.{nm} as {t}'); tys.append(t)
        else:
            a, t = {'R': ('range(d)', 'YuvRange'), 'X': ('matrix(d)', 'YuvStandardMatrix'), 'M': ('md!(d)', 'YuvConversionMode'),
                    'P': ('d.flag != 0', 'bool'), 'O': ('order(d)', 'Rgb30ByteOrder'), 'G': ('gamma(d)', 'SharpYuvGammaTransfer'),
                    'Rot': ('rot(d)', 'RotationMode'), 'Mir': ('mir(d)', 'MirrorMode')}[o[1]]
            args.append(a); tys.append(t)
    if feat: print(f'#[cfg(feature = "{feat}")]')
    print(f'unsafe fn g_{g.rstrip("_").lower()}(d: &mut Desc, f: fn({", ".join(tys)}) -> Result<(), YuvError>) -> Ret {{')
    for x in pre: print('    ' + x)
    print(f'    let r = f({", ".join(args)});')
    for x in post: print('    ' + x)
    print('    Ret::of(r)\n}\n')
print('pub unsafe fn dispatch(d: &mut Desc) -> Ret {\n    match d.fn_id {')
for i, n, g, f in rows:
    c = f'#[cfg(feature = "{f}")] ' if f != '-' else ''
    print(f'        {c}{i} => g_{g.rstrip("_").lower()}(d, {n}),')
print('        _ => Ret::Unsupported,\n    }\n}')
