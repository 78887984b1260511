#!/usr/bin/env python3
"""Maintenance tool (not run by any check): regenerates harness/registry.in from rustdoc JSON.

  CARGO_TARGET_DIR=/tmp/t cargo rustdoc --offline -p yuv --all-features -- -Zunstable-options --output-format json
  python3 gen_registry.py /tmp/t/doc/yuv.json > ../registry.in

One line per public function:  r!(id, name, Group, "feature needed or empty");
"""
import json, sys
d = json.load(open(sys.argv[1])); idx = d['index']; root = idx[str(d['root'])]
def ty(t):
    if t is None: return '()'
    k, v = next(iter(t.items()))
    if k == 'primitive': return v
    if k == 'slice': return '[' + ty(v) + ']'
    if k == 'borrowed_ref': return '&' + ('mut ' if v.get('is_mutable', v.get('mutable')) else '') + ty(v['type'])
    if k == 'resolved_path':
        s = (v.get('name') or v.get('path')).split('::')[-1]; a = v.get('args')
        if a and 'angle_bracketed' in a:
            l = [ty(x['type']) for x in a['angle_bracketed']['args'] if 'type' in x]
            if l: s += '<' + ','.join(l) + '>'
        return s
    return k + str(v)
SH = {'YuvPlanarImageMut': 'PlM', 'YuvPlanarImage': 'Pl', 'YuvBiPlanarImage': 'Bi', 'YuvBiPlanarImageMut': 'BiM',
      'YuvPlanarImageWithAlpha': 'PlA', 'YuvGrayImage': 'Gr', 'YuvGrayImageMut': 'GrM', 'YuvGrayAlphaImage': 'GrA',
      'YuvPackedImage': 'Pk', 'YuvPackedImageMut': 'PkM', 'YuvRange': 'R', 'YuvStandardMatrix': 'X',
      'YuvConversionMode': 'M', 'bool': 'P', 'Rgb30ByteOrder': 'O', 'SharpYuvGammaTransfer': 'G', 'u32': 'D', 'usize': 'Z',
      'RotationMode': 'Rot', 'MirrorMode': 'Mir'}
def short(t):
    if t.startswith('&mut ['): return 'D' + t[6:-1] + '_'
    if t.startswith('&['): return 'S' + t[2:-1] + '_'
    t = t.replace('&mut ', '').replace('&', '')
    if '<' in t:
        a, b = t[:-1].split('<'); return SH[a] + b + '_'
    return SH[t]
out = []
for i in root['inner']['module']['items']:
    it = idx[str(i)]
    if 'use' in it['inner']:
        it = idx.get(str(it['inner']['use']['id']))
        if it is None: continue
    if 'function' in it['inner']:
        f = it['inner']['function']; s = f.get('sig') or f['decl']
        n = it['name']; g = ''.join(short(ty(t)) for _, t in s['inputs'])
        feat = ''
        if 'f16' in g: feat = 'nightly_f16'
        elif n.startswith('rotate_') or n.startswith('mirror_'): feat = 'geometry'
        elif n.startswith('rdp_'): feat = 'rdp'
        elif '_be_' in n or n.endswith('_be'): feat = 'big_endian'
        out.append((n, g, feat))
out.sort()
for k, (n, g, f) in enumerate(out):
    print(f'{k} {n} {g} {f or "-"}')
