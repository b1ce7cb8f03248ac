"""Which functions and bounded units decide which property."""
import re
C01 = 'GammaCorrection|AbsoluteDifference|BitwiseAnd|BitwiseOr|BitwiseXor|Invert|Maximum|Minimum|Subtract|Threshold2?|LookupTable'
C05 = 'Sum|Histogram|MaskHistogram|ProjectionProfile|Accumulate|IsEqual|IsBinary|GetPixel'
C06 = 'Copy|Fill|Flip|Transpose|Resize|SetPixel'
C07 = 'ConvertTo16Bit|ConvertTo8Bit|ConvertToGrayScale|ConvertToRgb|RgbToBgr|RgbToRgba|RgbaToRgb|ExtractChannel|ReplaceChannel|Merge|Split'
OTHER = 'Normalize'
ALLOPS = '|'.join((C01, C05, C06, C07, OTHER))
TRUSTED = ['clang 18 front end and the LLVM canonicalisation passes named in pvc/ir.py (mem2reg, instcombine, simplifycfg, loop-simplify)',
           'the verification-condition generator pvc/ and the solver z3',
           'contracts of std::vector, memcpy/memset/memmove and std::fill (assumed at call sites); the contracts of ImageTemplate methods used at call sites are proved under C11',
           'exception cleanup paths only destroy local objects and rethrow']
def categories(kind, form, unit='scalar'):
    """the properties an obligation belongs to"""
    if unit == 'opencl': return {'C18'}
    if unit == 'simd': return {'C08'}
    if unit == 'image': return {'C11'}
    m = re.match(r'C\d\d', kind)
    if m: return {m.group(0)}
    if kind.startswith(('value inside', 'every pixel', 'returned value')):
        s = set(getattr(getattr(form, 'op', None), 'props', ()) or ())
        if not getattr(form, 'full', True): s.add('C14')
        if kind == 'returned value' and not s: s.add('C04')
        return s or {'C01'}
    return {'C03'}
def ops(pat):
    r = re.compile(r'(?:Image_Function|Image_Function_Simd)::(?:%s)\(' % pat)
    return lambda dn, form: bool(r.search(dn))
anyop = lambda dn, form: True
def checks(dn, form): return not re.match(r'(?:Image_Function)::\w+\(', dn)
def rx(ops, forms='[0-9]'): return r'\.(%s)\.%s$' % (ops, forms)
invalid = lambda f: '(parameters invalid)' in f['text']
def valuelike(f):
    return f['kind'] in ('value', 'hang', 'overload') or (f['kind'] == 'memory' and not invalid(f)) or 'valid parameters rejected' in f['text'] and 'invalid' not in f['text'].split('|')[-1]
def r_frame(f): return f['kind'] == 'frame' or (f['kind'] == 'memory' and 'WRITE' in f['text'] and not invalid(f))
def r_mem(f): return f['kind'] in ('memory', 'hang')
def r_reject(f): return f['kind'] == 'reject' or (f['kind'] in ('memory', 'hang', 'frame') and invalid(f))
def r_any(f): return True
def discount14(fails, other):
    """an overload that fails exactly like the full-region form is not a violation of C14"""
    full = {}
    for f in fails:
        p, o, n = f['unit'].rsplit('.', 2)
        full[f['unit']] = {'scalar.%s.4' % o} if n != '4' or p == 'front' else set()
    bad = other(set().union(*full.values())) if full else set()
    return [f for f in fails if f['kind'] == 'harness' or not (full[f['unit']] & bad)]
PROPS = {
    'C01': dict(ded=[('scalar', ops('AbsoluteDifference|BitwiseAnd|BitwiseOr|BitwiseXor|Invert|Maximum|Minimum|Subtract|Threshold|LookupTable|GammaCorrection'))], bnd=[('scalar', rx(C01))], relevant=valuelike, level='proof',
                note='every overload of the pixelwise functions proved against its pixel formula for all images, strides, regions and in-place uses; executed on generated inputs as a cross-check of the contracts'),
}
PROPS.update({
    'C02': dict(ded=[('scalar', anyop)], bnd=[('scalar', '.'), ('simd', '.')], relevant=r_frame, level='proof', scale=2.0,
                note='frame of every function under contract: every byte outside the output region, row padding and every input image keep their value'),
    'C03': dict(ded=[('scalar', anyop)], bnd=[('scalar', '.'), ('simd', '.')], relevant=r_mem, level='proof', scale=2.0,
                note='every load and store of every function under contract is inside its image or table and every loop terminates'),
    'C04': dict(ded=[('scalar', anyop)], bnd=[('scalar', '.'), ('simd', '.')], relevant=r_reject, level='proof', scale=2.0,
                note='a function under contract throws penguinVException exactly when its precondition is violated, before any write; the parameter-checking helpers are proved against their own contracts'),
    'C05': dict(ded=[('scalar', ops('Sum|Histogram|ProjectionProfile|Accumulate|IsEqual|IsBinary|GetPixel'))], bnd=[('scalar', rx(C05))], relevant=valuelike, level='proof',
                note='every overload of the reductions proved to return the mathematical sum, count, bin contents or comparison over all components of the region (nested sums; truncated to 32 bits)'),
    'C06': dict(ded=[('scalar', ops(C06))], bnd=[('scalar', rx(C06))], relevant=valuelike, level='proof', note='geometric functions against their pixel mapping'),
    'C07': dict(ded=[('scalar', ops(C07))], bnd=[('scalar', rx(C07))], relevant=valuelike, level='proof', note='every overload of the conversions proved against its pixel formula, component by component; the inverse laws follow from the formulas'),
    'C08': dict(ded=[('simd', lambda dn, form: bool(re.search(r'\b(?:simd|Image_Function_Simd)::', dn.split('(')[0])))], bnd=[('simd', '.')], relevant=r_any, level='proof', scale=3.0,
                note='every vectorised function proved, for each instruction set (avx512, avx, sse, scalar fallback), against the contract of the scalar function, down to the vector intrinsics; Image_Function_Simd overloads proved for whatever set actualSimdType selects; executed for every set the processor has as a cross-check',
                assume=['vector intrinsics behave as in the Intel architecture manuals (the few left as calls after clang lowering have contracts: pshufb, packuswb, psrli.w, vpermb/w)', 'the NEON branches are not compiled on this machine and not verified',
                        'SimdInfo reports the processor features correctly']),
    'C09': dict(bnd=[('pool', '.'), ('scalar', '^$')], relevant=r_any, level='exploration', scale=3.0, note='multithreaded functions against the scalar definition'),
    'C10': dict(bnd=[('thread', '.')], relevant=r_any, level='exploration', note='thread pool and task providers driven through task counts, thread counts, resizing, clearing, stopping and throwing tasks under ThreadSanitizer'),
    'C11': dict(ded=[('image', anyop)], bnd=[('container', '.')], relevant=r_any, level='proof',
                note='every public method of ImageTemplate proved, from every state the class invariant allows and on exceptional paths too (landing pads are executed), to meet its contract, keep the invariant and free every buffer exactly once; the facade of memory functions and the default memory functions have contracts of their own; executed through generated operation histories against a reference model as a cross-check',
                assume=['a buffer passed to assign() is not owned by anybody else and comes from the allocator of the image type', 'image data is smaller than 4 GiB (as the property says)',
                        'allocator contract: allocate returns a new buffer or throws std::bad_alloc, free ends its life (C12)', 'the functions registered for other image types meet the same contracts as the default ones']),
    'C12': dict(bnd=[('alloc', '.')], relevant=r_any, level='exploration', note='base memory allocator driven through generated allocate/free histories; live blocks disjoint, content preserved'),
    'C13': dict(bnd=[('bmp', '.')], relevant=r_any, level='exploration', note='bitmap round trips of generated regions and generated, malformed and truncated files against an independent reading of the headers'),
    'C16': dict(bnd=[('filter', '.')], relevant=r_any, level='exploration', note='Median, Prewitt and Sobel on generated images, regions and kernels against their definition'),
    'C20': dict(bnd=[('light', '.')], relevant=r_any, level='exploration', note='light correction through generated analyse/correct histories against its integer formula'),
    'C17': dict(bnd=[('edge', '.')], relevant=r_any, level='exploration', note='edge detection on generated images, regions and parameters: bounds, exact step edges, mirror, transposition, selection and locality relations'),
    'C15': dict(bnd=[('blob', '.')], relevant=r_any, level='exploration', note='blob detection on generated images, regions, thresholds and limits against a flood fill with recomputed measurements'),
    'C14': dict(ded=[('scalar', lambda dn, form: True)], bnd=[('scalar', r'\.[1235]$'), ('front', '.')], relevant=lambda f: valuelike(f) or f['kind'] == 'frame', discount=discount14, level='proof', scale=3.0,
                note='every overload proved to be its full-region form; front-end dispatch executed'),
})

PROPS['C18'] = dict(ded=[('opencl', lambda dn, form: dn.startswith('Image_Function_OpenCL::') or 'Image_Function_OpenCL::' in dn.split('(')[0] or dn.startswith('std::vector') and 'Image_Function_OpenCL::' in dn)], bnd=[('opencl', '.')], relevant=r_any, level='proof', scale=2.0,
    note='every OpenCL host function proved against the same contract as the CPU function, its kernel launches expanded to all work-items of the kernel text in the same file; executed end to end on a CPU OpenCL device',
    assume=['the OpenCL runtime runs every work-item of a launch exactly once and makes its writes visible to the next command of the queue',
            'the launch range covers the requested range (launch sizes are rounded up to the work-group size; work-items beyond the requested range are included in the proof)',
            'atomic_inc/atomic_add/atomic_min/atomic_max are atomic; GetProgram builds the kernel text of the same file; multiCL::Array/Type/readBuffer/writeBuffer copy the named bytes',
            'the OpenCL C of the kernels is compiled by clang for the host in place of the device compiler (same integer semantics)'])
DED = 'function contracts on LLVM IR of the real code, loop summaries, SMT discharge'
BND = 'contracts executed on the real code (bounded)'
for _p in PROPS.values(): _p.setdefault('technique', DED if _p['level'] == 'proof' else BND)
def discount_same(suffix='4'):
    """a failure which the scalar form of the same operation shows too is not a failure of this property"""
    def d(fails, other):
        base = {f['unit']: {'scalar.%s.%s' % (f['unit'].rsplit('.', 2)[1], n) for n in ('4', f['unit'].rsplit('.', 1)[1])} for f in fails if f['kind'] != 'harness'}
        bad = other(set().union(*base.values())) if base else set()
        return [f for f in fails if f['kind'] == 'harness' or not (base[f['unit']] & bad)]
    return d
PROPS['C08']['bnd'].append(('scalar', '^$')); PROPS['C08']['discount'] = discount_same()
PROPS['C09']['discount'] = discount_same()
NA = {}
NA['C19'] = 'floating-point rounding error over all inputs is outside what the contract verifier can decide'
