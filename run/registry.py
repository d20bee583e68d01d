"""What each check runs. Order of `configs`: the first one must build, the others are skipped when they do not."""
CONFIGS = {
    'sse2':     {'flags': ['-O2', '-DNDEBUG']},
    'sse41':    {'flags': ['-O2', '-DNDEBUG', '-msse4.1']},
    'haswell':  {'flags': ['-O2', '-DNDEBUG', '-march=haswell']},
    'dbg':      {'flags': ['-O0', '-march=haswell']},                                   # asserts on
    'asan':     {'flags': ['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-DNDEBUG']},
    'asandbg':  {'flags': ['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS']},
    'fallback': {'flags': ['-O2', '-DNDEBUG'], 'prelude': 'fallback.hpp'},              # portable path, no SIMD
}
MC_BVH = {'module': 'MC_Bvh', 'cfg': 'MC_Bvh.cfg', 'workers': 4}
GEN_BVH = {'module': 'GenBvh', 'tag': 'bvh', 'cap': 250}
PROPS = {}
PROPS['B01'] = dict(harness='bvh', trace='TraceBvh', configs=['sse2', 'haswell'], modes=['struct', 'replay', 'crowd', 'giant'], mc=[MC_BVH],
                    gen=[GEN_BVH], ops=['begin', 'split', 'built', 'crowd', 'giant'])
PROPS['B02'] = dict(PROPS['B01'])
PROPS['B03'] = dict(PROPS['B01'], configs=['asan', 'sse2'], modes=['degenerate', 'struct', 'crowd', 'giant'])
PROPS['B04'] = dict(PROPS['B01'], modes=['query', 'threads', 'replay', 'crowd', 'giant'], ops=['walk', 'test', 'leaf', 'walkend', 'frustum', 'emptyquery', 'crowd', 'crowdq', 'giant', 'giantq'])
PROPS['B05'] = dict(PROPS['B01'], modes=['sah', 'replay', 'crowd'], ops=['begin', 'split', 'built', 'crowd'])
PROPS['B06'] = dict(PROPS['B01'], modes=['rebuild'], ops=['begin', 'split', 'built'])

# ---------------------------------------------------------------- geometry
VEC4 = ['sse2', 'haswell', 'sse41']
def geom(modes, mc, gen=(), ops=(), **kw):
    return dict(harness='geom', trace='TraceGeom', configs=['sse2', 'haswell'], modes=modes, mc=mc, gen=list(gen), ops=list(ops), **kw)
PROPS['A01'] = geom(['box', 'boxreplay'], [{'module': 'MC_Aabb', 'cfg': 'MC_Aabb.cfg', 'workers': 2}],
                    [{'module': 'MC_Aabb', 'cfg': 'GenAabb.cfg', 'tag': 'aabb', 'args': ['-simulate', 'num=60', '-depth', '11', '-seed', '{seed}']}],
                    ['box', 'boxq', 'boxconst', 'boxnew', 'open'])
PROPS['A02'] = geom(['ray'], [{'module': 'MC_Geometry', 'cfg': 'MC_Geometry_ray.cfg', 'workers': 2}, {'module': 'MC_Ray', 'cfg': 'MC_Ray.cfg', 'workers': 3}], ops=['ray', 'openray', 'rayconst', 'raynorm', 'rayhist'],
                    thorough=dict(mc=[{'module': 'MC_Geometry', 'cfg': 'MC_Geometry_ray.cfg', 'workers': 2}, {'module': 'MC_Ray', 'cfg': 'MC_RayDeep.cfg', 'workers': 4}]))
PROPS['A03'] = geom(['tri', 'trireplay'], [{'module': 'MC_Geometry', 'cfg': 'MC_Geometry_tri.cfg', 'workers': 2}],
                    [{'module': 'GenGeometry', 'cfg': 'GenGeometry.cfg', 'tag': 'tri', 'args': ['-seed', '{seed}'], 'cap': 1500}], ['tribox'])
def space(*kinds):
    return [{'module': 'MC_Space', 'cfg': f'MC_Space_{k}.cfg', 'workers': 3} for k in kinds]
PROPS['A04'] = geom(['cull'], space('cull'), ops=['cull'], thorough=dict(mc=space('culldeep')))
PROPS['G01'] = geom(['plane'], space('plane', 'tri'), ops=['plane', 'planenorm', 'planeunit', 'planetri', 'planeflat', 'planenear', 'planeconst'])
PROPS['G02'] = geom(['point'], [{'module': 'MC_Geometry', 'cfg': 'MC_Geometry_in.cfg', 'workers': 2}],
                    ops=['nearline', 'nearray', 'farray', 'sphere', 'nearsphere', 'tripoint', 'neartri', 'flatnear', 'moved'])
PROPS['G03'] = geom(['camera'], space('camera', 'ortho'), ops=['camera', 'planes6'])

# ---------------------------------------------------------------- vectors
MC_WORD = {'module': 'MC_Word', 'cfg': 'MC_Word.cfg', 'workers': 3}
GEN_VEC = {'module': 'GenVec', 'cfg': 'GenVec.cfg', 'tag': 'vec', 'args': ['-simulate', 'num=80', '-depth', '15', '-seed', '{seed}']}
INT_OPS = ['vload', 'vop', 'vun', 'vcmp', 'vsel', 'vset', 'vfill']
PROPS['V01'] = dict(harness='vec', trace='TraceVec', configs=['sse2'], modes=['scalrandom', 'scaledges', 'scalreplay'], mc=[MC_WORD], gen=[GEN_VEC], ops=INT_OPS + ['vmask'])
PROPS['V02'] = dict(harness='vec', trace='TraceVec', configs=['sse2', 'sse41', 'haswell', 'fallback'], modes=['simdrandom', 'simdedges', 'simdreplay'], mc=[MC_WORD],
                    gen=[GEN_VEC], ops=INT_OPS + ['vmask', 'vred', 'vbic'])
PROPS['V05'] = dict(harness='vec', trace='TraceVec', configs=['sse2', 'sse41', 'haswell', 'fallback'], modes=['make'], mc=[{'module': 'MC_Lanes', 'cfg': 'MC_Lanes.cfg', 'workers': 2}],
                    ops=['ctor', 'cut', 'swz', 'conv', 'tofloat', 'trunc', 'const', 'text'])
PROPS['V06'] = dict(harness='vec', trace='TraceVec', configs=['sse2', 'haswell', 'fallback'], modes=['order'], mc=[{'module': 'MC_Keys', 'cfg': 'MC_Keys.cfg', 'workers': 3}], ops=['order', 'key'])
MC_XREAL = {'module': 'MC_XReal', 'cfg': 'MC_XReal.cfg', 'workers': 2}
FL_OPS = ['fload', 'fop', 'fun', 'fcmp', 'fsel', 'fset', 'ffill', 'fgeo', 'fnear', 'flerp', 'frep', 'fsqrt', 'fminmax', 'fround', 'fquot', 'fzero']
PROPS['V03'] = dict(harness='vecf', trace='TraceVecF', configs=['sse2', 'haswell'], modes=['scalrandom', 'scalreplay', 'scallib'], mc=[MC_XREAL], gen=[GEN_VEC],
                    ops=FL_OPS + ['fgain', 'froot', 'flane', 'fhalf', 'ffused'])
PROPS['V04'] = dict(harness='vecf', trace='TraceVecF', configs=['sse2', 'sse41', 'haswell', 'fallback'], modes=['simdrandom', 'simdreplay', 'simdlib'], mc=[MC_XREAL],
                    gen=[GEN_VEC], ops=FL_OPS + ['fdots', 'ftrig', 'ftrigk', 'flog', 'fwide', 'fexp', 'fspecial', 'fpow', 'fpowr', 'fpow1'])
# ---------------------------------------------------------------- matrices and rotations
MC_MAT = [{'module': 'MC_Mat', 'cfg': f'MC_Mat{n}.cfg', 'workers': 2} for n in (2, 3, 4)]
def mat(modes, ops, **kw):
    return dict(dict(harness='mat', trace='TraceMat', configs=['sse2', 'haswell', 'fallback'], modes=modes, ops=ops), **kw)
PROPS['M01'] = mat([('random', ['sse2', 'haswell', 'fallback', 'dbg']), 'replay'], ['mload', 'mcol', 'mscal', 'mmul', 'mvec', 'mtr', 'meq', 'm33'], mc=MC_MAT, gen=[GEN_VEC], configs=['sse2', 'haswell', 'fallback', 'dbg'])
PROPS['M02'] = mat(['inverse'], ['minv'], mc=MC_MAT)
PROPS['M03'] = mat(['shapes'], ['mshape'], mc=[{'module': 'MC_Shape', 'cfg': 'MC_Shape.cfg', 'workers': 2}])

# ---------------------------------------------------------------- transforms and rotations
MC_XFORM = {'module': 'MC_Xform', 'cfg': 'MC_Xform.cfg', 'workers': 2}
MC_QUAT = {'module': 'MC_Quat', 'cfg': 'MC_Quat.cfg', 'workers': 3}
GEN_XF = {'module': 'GenXform', 'cfg': 'GenXform.cfg', 'tag': 'xform', 'args': ['-seed', '{seed}'], 'cap': 150}
def xf(modes, ops, **kw):
    return dict(dict(harness='xform', trace='TraceXform', configs=['sse2', 'haswell', 'fallback'], modes=modes, ops=ops), **kw)
PROPS['T01'] = xf(['model', 'modelreplay', 'free'], ['xparts', 'xapply', 'xset', 'xcalc', 'xpoint', 'xhom', 'xget', 'xrigid', 'xquat', 'xfree'], mc=[MC_XFORM], gen=[GEN_XF])
PROPS['T02'] = xf(['turn', 'turnreplay', 'arcs'], ['qload', 'qmul', 'qun', 'qnear', 'qback', 'qturn', 'qaxis', 'qslerp'], mc=[MC_QUAT], gen=[GEN_XF])
PROPS['T03'] = xf(['euler', 'look'], ['xeuler', 'xeulerp', 'xnear', 'xalong', 'xlook', 'xangle'], mc=[MC_QUAT])

# ---------------------------------------------------------------- value types and containers
MC_VALUES = {'module': 'MC_Values', 'cfg': 'MC_Values.cfg', 'workers': 4}
MC_PACKED = {'module': 'MC_Packed', 'cfg': 'MC_Packed.cfg', 'workers': 2}
GEN_PACKED = {'module': 'GenPacked', 'cfg': 'GenPacked.cfg', 'tag': 'packed', 'args': ['-simulate', 'num=15', '-depth', '45', '-seed', '{seed}']}
def val(modes, ops, configs=('sse2', 'haswell', 'dbg'), **kw):
    return dict(dict(harness='val', trace='TraceVal', configs=list(configs), modes=modes, ops=ops), **kw)
PROPS['P01'] = val(['packed', 'packedreplay', 'packedgiant'], ['pbegin', 'p', 'pgiant'], configs=('sse2', 'asandbg', 'haswell'), mc=[MC_PACKED], gen=[GEN_PACKED],
                   thorough=dict(mc=[MC_PACKED, {'module': 'MC_Packed', 'cfg': 'MC_PackedDeep.cfg', 'workers': 8}]))
PROPS['C01'] = val(['hex'], ['hex', 'unhex'], configs=('sse2', 'haswell', 'asandbg'), mc=[MC_VALUES])
PROPS['C02'] = val(['color'], ['cbytes', 'cnorm', 'ccmp', 'cconst', 'clin', 'cfrom'], configs=('sse2', 'haswell', 'fallback', 'dbg'), mc=[MC_VALUES])
PROPS['C03'] = val(['version'], ['ver'], mc=[MC_VALUES])
PROPS['C04'] = val(['flags'], ['flags'], mc=[MC_VALUES])
PROPS['C05'] = val(['scalar'], ['scal3', 'scal1', 'scall', 'scalg', 'scalr', 'angle'], mc=[{'module': 'MC_Scalar', 'cfg': 'MC_Scalar.cfg', 'workers': 3}])
PROPS['R01'] = val(['mips'], ['mips'], configs=('sse2', 'haswell', 'fallback'), mc=[MC_VALUES])

# ---------------------------------------------------------------- lighting
MC_LIGHT = {'module': 'MC_Light', 'cfg': 'MC_Light.cfg', 'workers': 2}
def light(modes, ops, **kw):
    return dict(dict(harness='light', trace='TraceLight', configs=['sse2', 'haswell', 'fallback'], modes=modes, ops=ops, mc=[MC_LIGHT]), **kw)
PROPS['R02'] = light(['cube', 'samples'], ['cube', 'ham', 'hamhi', 'samp', 'ggx', 'ior'])
PROPS['R03'] = light(['harmonics', 'minima'], ['basis', 'shconst', 'shrot', 'window', 'sinc', 'area', 'shmin', 'dering'])
PROPS['R04'] = light(['spaces'], ['srgb', 'mono', 'below', 'bright', 'xyz', 'yxy', 'gamma'])
