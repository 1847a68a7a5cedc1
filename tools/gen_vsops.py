"""Generates harness/src/vsops.rs: every vsimd operation with its lane-wise definition and the
instruction sets that provide it (min x86 level 1 SSE2 .. 4 AVX2, 5 none; WASM; NF = NEON)."""
lanes={'u8':1,'u16':2,'u32':4,'u64':8,'i8':1,'i16':2,'i32':4,'i64':8}
L=[]
A=L.append
W='W';N='N'
def isa(x,w=True,n=True):
    # x: minimal x86 level, 5 = none
    return f"{x}{' | WASM' if w else ''}{' | NF' if n else ''}"
def t128(l): return f"{l}x{16//lanes[l]}"
def t256(l): return f"{l}x{32//lanes[l]}"
def op(name,isas,kind,ex,spec):
    if isas=="SSE2ONLY":
        return A(f'    op_sse2!(v, "{name}", {kind}, |s, x| {ex}, {spec});')
    A(f'    op!(v, "{name}", {isas}, {kind}, |s, x| {ex}, {spec});')
def both_bi(l,nm,isas,f,kind='Any',isas256=None):
    op(f"{t128(l)}_{nm}",isas,kind,f"s.{t128(l)}_{nm}(a128(x), b128(x))",f"|x, _| bi::<{l}>(16, &x.a, &x.b, {f})")
    op(f"{t256(l)}_{nm}",isas256 or isas,kind,f"s.{t256(l)}_{nm}(a256(x), b256(x))",f"|x, _| bi::<{l}>(32, &x.a, &x.b, {f})")
def both_cmp(l,nm,isas,f):
    op(f"{t128(l)}_{nm}",isas,'Any',f"s.{t128(l)}_{nm}(a128(x), b128(x))",f"|x, _| cmp::<{l}>(16, &x.a, &x.b, {f})")
    op(f"{t256(l)}_{nm}",isas,'Any',f"s.{t256(l)}_{nm}(a256(x), b256(x))",f"|x, _| cmp::<{l}>(32, &x.a, &x.b, {f})")
S2=isa(1)
for nm,f in [('and','|p, q| p & q'),('or','|p, q| p | q'),('xor','|p, q| p ^ q'),('andnot','|p, q| p & !q')]:
    for w,c in ((16,'128'),(32,'256')):
        op(f"v{c}_{nm}",S2,'Any',f"s.v{c}_{nm}(a{c}(x), b{c}(x))",f"|x, _| bi::<u8>({w}, &x.a, &x.b, {f})")
for w,c in ((16,'128'),(32,'256')):
    op(f"v{c}_not",S2,'Any',f"s.v{c}_not(a{c}(x))",f"|x, _| un::<u8>({w}, &x.a, |p| !p)")
    op(f"v{c}_create_zero",S2,'Any',f"s.v{c}_create_zero()",f"|_, _| Out::of({w})")
    op(f"v{c}_all_zero",isa(3),'Sparse',f"s.v{c}_all_zero(a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| p == 0))")
    op(f"v{c}_bsl",S2,'Any',f"s.v{c}_bsl(a{c}(x), b{c}(x), c{c}(x))",f"|x, _| {{ let mut o = Out::of({w}); for i in 0..{w} {{ o.d[i] = (x.a[i] & x.b[i]) | (!x.a[i] & x.c[i]); }} o }}")
    for nm in ('load','load_unaligned'):
        al = 'x.align' if nm.endswith('unaligned') else '0'
        op(f"v{c}_{nm}",S2,'Any',f"{{ let m = Mem::new(&x.a[..{w}], {al}, {w}); let r = s.v{c}_{nm}(m.ptr()); m.check(&x.a[..{w}]); r }}",f"|x, _| un::<u8>({w}, &x.a, |p| p)")
    for nm in ('store','store_unaligned'):
        al = 'x.align' if nm.endswith('unaligned') else '0'
        op(f"v{c}_{nm}",S2,'Any',f"{{ let mut m = Mem::new(&x.b[..{w}], {al}, {w}); s.v{c}_{nm}(m.ptr_mut(), a{c}(x)); m.check(&x.a[..{w}]); m.out({w}) }}",f"|x, _| un::<u8>({w}, &x.a, |p| p)")
for l in lanes:
    for w,t,c in ((16,t128(l),128),(32,t256(l),256)):
        op(f"{t}_splat",S2,'Any',f"s.{t}_splat(first::<{l}>(&x.a))",f"|x, _| un::<{l}>({w}, &x.a, |_| first::<{l}>(&x.a))")
for l in ('u8','u16','u32','u64'):
    both_bi(l,'add',S2,f'{l}::wrapping_add'); both_bi(l,'sub',S2,f'{l}::wrapping_sub')
for l in ('u8','u16','i8','i16'):
    both_bi(l,'sub_sat',S2,f'{l}::saturating_sub')
for l in ('u8','i8'):
    both_bi(l,'add_sat',S2,f'{l}::saturating_add')
both_bi('i16','mul_lo',S2,'i16::wrapping_mul'); both_bi('i32','mul_lo',isa(3),'i32::wrapping_mul')
both_bi('u16','mul_hi',isa(1,0,0),'|p, q| ((p as u32 * q as u32) >> 16) as u16')
both_bi('i16','mul_hi',isa(1,0,0),'|p, q| ((p as i32 * q as i32) >> 16) as i16')
for l in ('u8','u16','u32'): both_cmp(l,'eq',S2,'|p, q| p == q')
for l in ('u8','u16','u32','i8','i16','i32'):
    both_cmp(l,'lt',S2,'|p, q| p < q')
    lv=isa(1) if l in('u8','i16') else isa(3)
    both_bi(l,'max',lv,f'{l}::max'); both_bi(l,'min',lv,f'{l}::min')
both_bi('u8','avgr',S2,'|p, q| ((p as u16 + q as u16 + 1) >> 1) as u8')
for l,n in (('u16',16),('u32',32)):
    lst=' '.join(map(str,range(n)))
    for d,o in (('shl','<<'),('shr','>>')):
        for w,t,c in ((16,t128(l),128),(32,t256(l),256)):
            A(f'    op_imm!(v, "{t}_{d}", {S2}, Any, [{lst}], |s, x| s.{t}_{d}::<I>(a{c}(x)), |x, i| un::<{l}>({w}, &x.a, |p| p {o} i));')
for l in ('u16','u32','u64'):
    for w,t,c in ((16,t128(l),128),(32,t256(l),256)):
        op(f"{t}_bswap",isa(2),'Any',f"s.{t}_bswap(a{c}(x))",f"|x, _| un::<{l}>({w}, &x.a, {l}::swap_bytes)")
op("u8x16_swizzle",isa(2),'Index',"s.u8x16_swizzle(a128(x), b128(x))","|x, _| swizzle(16, &x.a, &x.b)")
op("u8x16x2_swizzle",isa(2),'Index',"s.u8x16x2_swizzle(a256(x), b256(x))","|x, _| swizzle(32, &x.a, &x.b)")
for w,t,c in ((16,'u8x16',128),(32,'u8x32',256)):
    op(f"{t}_any_zero",S2,'Sparse',f"s.{t}_any_zero(a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].contains(&0))")
    op(f"{t}_bitmask",isa(1,1,0),'Any',f"s.{t}_bitmask(a{c}(x)) as u32",f"|x, _| Out::num(x.a[..{w}].iter().enumerate().fold(0u32, |m, (i, &p)| m | ((p >> 7) as u32) << i))")
for l,n1,n2 in (('u8','u8x16','u8x16x2'),('u16','u16x8','u16x8x2'),('u32','u32x4','u32x4x2'),('u64','u64x2','u64x2x2')):
    for h in ('lo','hi'):
        b='true' if h=='hi' else 'false'
        op(f"{n1}_zip_{h}",S2,'Any',f"s.{n1}_zip_{h}(a128(x), b128(x))",f"|x, _| zip::<{l}>(16, &x.a, &x.b, {b})")
        op(f"{n2}_zip_{h}",S2,'Any',f"s.{n2}_zip_{h}(a256(x), b256(x))",f"|x, _| zip::<{l}>(32, &x.a, &x.b, {b})")
for h,i in (('lo',0),('hi',16)):
    op(f"v128x2_zip_{h}",S2,'Any',f"s.v128x2_zip_{h}(a256(x), b256(x))",f"|x, _| cat(&x.a[{i}..{i}+16], &x.b[{i}..{i}+16])")
for h,i in (('even',0),('odd',8)):
    op(f"u64x4_unzip_{h}",S2,'Any',f"s.u64x4_unzip_{h}(a256(x), b256(x))",f"|x, _| cat(&[&x.a[{i}..{i}+8], &x.a[{i}+16..{i}+24]].concat(), &[&x.b[{i}..{i}+8], &x.b[{i}+16..{i}+24]].concat())")
# unzip of bytes: wasm and neon only
for h,k in (('even',0),('odd',1)):
    op(f"u8x16_unzip_{h}","5 | WASM | NF",'Any',f"s.u8x16_unzip_{h}(a128(x), b128(x))",f"|x, _| unzip(16, &x.a, &x.b, {k})")
    op(f"u8x32_unzip_{h}","5 | WASM | NF",'Any',f"s.u8x32_unzip_{h}(a256(x), b256(x))",f"|x, _| unzip(32, &x.a, &x.b, {k})")
op("i16x8_maddubs",isa(2,0,0),'Any',"s.i16x8_maddubs(a128(x), b128(x))","|x, _| maddubs(16, &x.a, &x.b)")
op("i16x16_maddubs",isa(2,0,0),'Any',"s.i16x16_maddubs(a256(x), b256(x))","|x, _| maddubs(32, &x.a, &x.b)")
op("i16x8_madd",isa(1,0,0),'Any',"s.i16x8_madd(a128(x), b128(x))","|x, _| madd(16, &x.a, &x.b)")
op("i16x16_madd",isa(1,0,0),'Any',"s.i16x16_madd(a256(x), b256(x))","|x, _| madd(32, &x.a, &x.b)")
op("u8x16_blendv",isa(3,0,0),'Any',"s.u8x16_blendv(a128(x), b128(x), c128(x))","|x, _| blendv(16, x)")
op("u8x32_blendv",isa(3,0,0),'Any',"s.u8x32_blendv(a256(x), b256(x), c256(x))","|x, _| blendv(32, x)")
op("i16x8_packus",isa(1,0,0),'Any',"s.i16x8_packus(a128(x), b128(x))","|x, _| packus(x)")
op("u16x16_from_u8x16",S2,'Any',"s.u16x16_from_u8x16(a128(x))","|x, _| { let mut o = Out::of(32); for i in 0..16 { o.d[2 * i] = x.a[i]; } o }")
lst=' '.join(map(str,range(256)))
A(f'    op_imm!(v, "u16x8_blend", {isa(3,0,0)}, Any, [{lst}], |s, x| s.u16x8_blend::<I>(a128(x), b128(x)), |x, i| blend(16, 2, x, i));')
A(f'    op_imm!(v, "u32x8_blend", {isa(4,0,0)}, Any, [{lst}], |s, x| s.u32x8_blend::<I>(a256(x), b256(x)), |x, i| blend(32, 4, x, i));')
A(f'    op_imm!(v, "u64x4_permute", {isa(4,0,0)}, Any, [{lst}], |s, x| s.u64x4_permute::<I>(a256(x)), |x, i| {{ let mut o = Out::of(32); for k in 0..4 {{ let j = (i >> (2 * k) & 3) as usize; o.d[k * 8..k * 8 + 8].copy_from_slice(&x.a[j * 8..j * 8 + 8]); }} o }});')
# Scalable
for w,V,c in ((16,'V128',128),(32,'V256',256)):
    def sc(nm,isas,kind,args,spec): op(f"Scalable<{V}>::{nm}",isas,kind,f"Scalable::<{V}>::{nm}(s, {args})",spec)
    ab=f"a{c}(x), b{c}(x)"; a1=f"a{c}(x)"
    for nm,f in [('and','|p, q| p & q'),('or','|p, q| p | q'),('xor','|p, q| p ^ q'),('andnot','|p, q| p & !q'),('u8xn_add','u8::wrapping_add'),('u8xn_sub','u8::wrapping_sub'),('u8xn_add_sat','u8::saturating_add'),('u8xn_sub_sat','u8::saturating_sub'),('u8xn_avgr','|p, q| ((p as u16 + q as u16 + 1) >> 1) as u8')]:
        sc(nm,S2,'Any',ab,f"|x, _| bi::<u8>({w}, &x.a, &x.b, {f})")
    sc('i8xn_add_sat',S2,'Any',ab,f"|x, _| bi::<i8>({w}, &x.a, &x.b, i8::saturating_add)")
    sc('u32xn_sub',S2,'Any',ab,f"|x, _| bi::<u32>({w}, &x.a, &x.b, u32::wrapping_sub)")
    sc('u32xn_max',isa(3),'Any',ab,f"|x, _| bi::<u32>({w}, &x.a, &x.b, u32::max)")
    sc('u8xn_eq',S2,'Any',ab,f"|x, _| cmp::<u8>({w}, &x.a, &x.b, |p, q| p == q)")
    sc('i8xn_lt',S2,'Any',ab,f"|x, _| cmp::<i8>({w}, &x.a, &x.b, |p, q| p < q)")
    sc('u32xn_lt',S2,'Any',ab,f"|x, _| cmp::<u32>({w}, &x.a, &x.b, |p, q| p < q)")
    for l in('u8','i8','u32'):
        sc(f'{l}xn_splat',S2,'Any',f'first::<{l}>(&x.a)',f"|x, _| un::<{l}>({w}, &x.a, |_| first::<{l}>(&x.a))")
    for l,d,o,n in (('u16','shl','<<',16),('u16','shr','>>',16),('u32','shr','>>',32)):
        lst=' '.join(map(str,range(n)))
        A(f'    op_imm!(v, "Scalable<{V}>::{l}xn_{d}", {S2}, Any, [{lst}], |s, x| Scalable::<{V}>::{l}xn_{d}::<I>(s, a{c}(x)), |x, i| un::<{l}>({w}, &x.a, |p| p {o} i));')
    sc('u8x16xn_swizzle',isa(2),'Index',ab,f"|x, _| swizzle({w}, &x.a, &x.b)")
    sc('all_zero',isa(3),'Sparse',a1,f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| p == 0))")
    sc('mask8xn_all',S2,'Mask',a1,f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| p == 0xFF))")
    sc('mask8xn_any',S2,'Mask',a1,f"|x, _| Out::flag(x.a[..{w}].iter().any(|&p| p == 0xFF))")
    sc('u8xn_highbit_all',S2,'High',a1,f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| p >= 0x80))")
    sc('u8xn_highbit_any',S2,'High',a1,f"|x, _| Out::flag(x.a[..{w}].iter().any(|&p| p >= 0x80))")
    for l in('u16','u32','u64'):
        sc(f'{l}xn_bswap',isa(2),'Any',a1,f"|x, _| un::<{l}>({w}, &x.a, {l}::swap_bytes)")
A14=L; L=[]; A=L.append
# ---- C15
S3=isa(2)
for w,V,c in ((16,'V128',128),(32,'V256',256)):
    op(f"hex::check_xn<{V}>",isa(1),'Hex',f"hex::check_xn(s, a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].iter().all(u8::is_ascii_hexdigit))")
    op(f"ascii::to_ascii_lowercase<{V}>",S2,'Text',f"ascii::to_ascii_lowercase(s, a{c}(x))",f"|x, _| un::<u8>({w}, &x.a, |p| p.to_ascii_lowercase())")
    op(f"ascii::to_ascii_uppercase<{V}>",S2,'Text',f"ascii::to_ascii_uppercase(s, a{c}(x))",f"|x, _| un::<u8>({w}, &x.a, |p| p.to_ascii_uppercase())")
    op(f"table::u8x16xn_lookup<{V}>",S3,'Index',f"table::u8x16xn_lookup(s, a{c}(x), b{c}(x))",f"|x, _| lookup({w}, &x.a, &x.b)")
    for sp in ('HexSpec','Base32Spec','Base32HexSpec','Base64Spec','Base64UrlSpec'):
        m=f".x2()" if c==256 else ""
        op(f"alsw::check_ascii_xn<{V}> {sp}",S3,f'Alphabet({sp}::alphabet)',f"alsw::check_ascii_xn(s, a{c}(x), {sp}::CHECK{m})",f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| {sp}::value(p) != 0xFF))")
        op(f"alsw::decode_ascii_xn<{V}> {sp}",S3,f'Alphabet({sp}::alphabet)',f"alsw_decode(x, {w}, alsw::decode_ascii_xn(s, a{c}(x), {sp}::CHECK{m}, {sp}::DECODE{m}), {sp}::value)",f"|x, _| spec_text({w}, x, {sp}::value)")
for nm,cs in (('UPPER','b"0123456789ABCDEF"'),('LOWER','b"0123456789abcdef"')):
    op(f"hex::encode_bytes16 {nm}",S3,'Any',f"hex::encode_bytes16(s, a128(x), hex::ENCODE_{nm}_LUT)",f"|x, _| spec_hex(&x.a[..16], {cs})")
    op(f"hex::encode_bytes32 {nm}",S3,'Any',f"hex::encode_bytes32(s, a256(x), hex::ENCODE_{nm}_LUT)",f"|x, _| spec_hex(&x.a, {cs})")
    op(f"hex::sse2::encode16 {nm}","SSE2ONLY",'Any',f"hex::sse2::encode16(s, a128(x), hex::sse2::{nm}_OFFSET)",f"|x, _| spec_hex(&x.a[..16], {cs})")
op("hex::decode_ascii16",S3,'Hex',"hex::decode_ascii16(s, a128(x))","|x, _| spec_unhex(&x.a[..16])")
op("hex::decode_ascii32",S3,'Hex',"hex::decode_ascii32(s, a256(x))","|x, _| spec_unhex(&x.a)")
op("hex::decode_ascii32x2",S3,'Hex2',"hex::decode_ascii32x2(s, (a256(x), b256(x)))","|x, _| spec_unhex(&[x.a, x.b].concat())")
op("hex::sse2::decode_nibbles","SSE2ONLY",'Hex',"nibbles(x, hex::sse2::decode_nibbles(s, a128(x)))","|x, _| spec_nibbles(x)")
op("hex::sse2::merge_bits","SSE2ONLY",'Nibbles',"hex::sse2::merge_bits(s, a128(x))","|x, _| { let mut o = Out::of(8); for i in 0..8 { o.d[i] = x.a[2 * i] << 4 | x.a[2 * i + 1]; } o }")
for nm in ('mask8x16','mask8x32'):
    w=16 if '16' in nm else 32; c=128 if w==16 else 256
    op(f"mask::{nm}_all",S2,'Mask',f"mask::{nm}_all(s, a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| p == 0xFF))")
    op(f"mask::{nm}_any",S2,'Mask',f"mask::{nm}_any(s, a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].iter().any(|&p| p == 0xFF))")
    u='u8x16' if w==16 else 'u8x32'
    op(f"mask::{u}_highbit_all",S2,'High',f"mask::{u}_highbit_all(s, a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].iter().all(|&p| p >= 0x80))")
    op(f"mask::{u}_highbit_any",S2,'High',f"mask::{u}_highbit_any(s, a{c}(x))",f"|x, _| Out::flag(x.a[..{w}].iter().any(|&p| p >= 0x80))")
op("simulation::u8x16_bitmask",S2,'Any',"{ let _ = s; vsimd::simulation::u8x16_bitmask(a128(x)) as u32 }","|x, _| Out::num(x.a[..16].iter().enumerate().fold(0u32, |m, (i, &p)| m | ((p >> 7) as u32) << i))")
op("simulation::i16x8_packus",S2,'Any',"{ let _ = s; vsimd::simulation::i16x8_packus(a128(x), b128(x)) }","|x, _| packus(x)")
lst=' '.join(map(str,range(16)))
A(f'    op_imm!(v, "simulation::u16x8_shl", {S2}, Any, [{lst}], |s, x| {{ let _ = s; vsimd::simulation::u16x8_shl(a128(x), I as u8) }}, |x, i| un::<u16>(16, &x.a, |p| p << i));')
A(f'    op_imm!(v, "simulation::u16x8_shr", {S2}, Any, [{lst}], |s, x| {{ let _ = s; vsimd::simulation::u16x8_shr(a128(x), I as u8) }}, |x, i| un::<u16>(16, &x.a, |p| p >> i));')
for n,t,V in ((16,'u16',256),(8,'u32',256),(4,'u64',256)):
    op(f"BSwap::swap_simd {t}",S3,'Any',f"<{t} as bswap::BSwap>::swap_simd(s, a256(x))",f"|x, _| un::<{t}>(32, &x.a, {t}::swap_bytes)")
# vectors
op("V128::to_v64x2",S2,'Any',"{ let _ = s; let (p, q) = a128(x).to_v64x2(); V64::pack2(p, q) }","|x, _| un::<u8>(16, &x.a, |p| p)")
op("V64::to_u64",S2,'Any',"{ let _ = s; a128(x).to_v64x2().1.to_u64().to_le_bytes() }","|x, _| { let mut o = Out::of(8); o.d[..8].copy_from_slice(&x.a[8..16]); o }")
op("V64::from_bytes",S2,'Any',"{ let _ = s; let mut e = [0u8; 8]; e.copy_from_slice(&x.a[..8]); V64::from_bytes(e) }","|x, _| un::<u8>(8, &x.a, |p| p)")
op("V128::x2",S2,'Any',"{ let _ = s; a128(x).x2() }","|x, _| cat(&x.a[..16], &x.a[..16])")
op("V256::from_v128x2",S2,'Any',"{ let _ = s; V256::from_v128x2((a128(x), b128(x))) }","|x, _| cat(&x.a[..16], &x.b[..16])")
op("V256::to_v128x2",S2,'Any',"{ let _ = s; a256(x).to_v128x2() }","|x, _| un::<u8>(32, &x.a, |p| p)")
op("V256::double_bytes",S2,'Any',"{ let _ = s; V256::double_bytes(*a128(x).as_bytes()) }","|x, _| cat(&x.a[..16], &x.a[..16])")
op("V256::x2",S2,'Any',"{ let _ = s; a256(x).x2().to_v256x2() }","|x, _| cat(&x.a, &x.a)")
op("V512::from_v256x2",S2,'Any',"{ let _ = s; V512::from_v256x2((a256(x), b256(x))) }","|x, _| cat(&x.a, &x.b)")
op("V512::double_bytes",S2,'Any',"{ let _ = s; V512::double_bytes(x.a) }","|x, _| cat(&x.a, &x.a)")
op("V512::from_bytes",S2,'Any',"{ let _ = s; let mut e = [0u8; 64]; e[..32].copy_from_slice(&x.a); e[32..].copy_from_slice(&x.b); V512::from_bytes(e) }","|x, _| cat(&x.a, &x.b)")
A15=L
o=open(__import__('os').path.join(__import__('os').path.dirname(__file__),'..','harness','src','vsops.rs'),'w')
o.write("// The tables of operations and their lane-wise definitions (included by vs.rs).\n\n")
for nm,l in (('lane_ops',A14),('block_ops',A15)):
    # several functions: one huge one compiles slowly
    parts=[l[i:i+60] for i in range(0,len(l),60)]
    for i,pt in enumerate(parts):
        o.write(f"fn {nm}_{i}(v: &mut Vec<Op>) {{\n"+"\n".join(pt)+"\n}\n\n")
    o.write(f"pub fn {nm}() -> Vec<Op> {{\n    let mut v = Vec::new();\n"+"".join(f"    {nm}_{i}(&mut v);\n" for i in range(len(parts)))+"    v\n}\n\n")
