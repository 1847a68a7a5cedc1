// The tables of operations and their lane-wise definitions (included by vs.rs).

fn lane_ops_0(v: &mut Vec<Op>) {
    op!(v, "v128_and", 1 | WASM | NF, Any, |s, x| s.v128_and(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p & q));
    op!(v, "v256_and", 1 | WASM | NF, Any, |s, x| s.v256_and(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p & q));
    op!(v, "v128_or", 1 | WASM | NF, Any, |s, x| s.v128_or(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p | q));
    op!(v, "v256_or", 1 | WASM | NF, Any, |s, x| s.v256_or(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p | q));
    op!(v, "v128_xor", 1 | WASM | NF, Any, |s, x| s.v128_xor(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p ^ q));
    op!(v, "v256_xor", 1 | WASM | NF, Any, |s, x| s.v256_xor(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p ^ q));
    op!(v, "v128_andnot", 1 | WASM | NF, Any, |s, x| s.v128_andnot(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p & !q));
    op!(v, "v256_andnot", 1 | WASM | NF, Any, |s, x| s.v256_andnot(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p & !q));
    op!(v, "v128_not", 1 | WASM | NF, Any, |s, x| s.v128_not(a128(x)), |x, _| un::<u8>(16, &x.a, |p| !p));
    op!(v, "v128_create_zero", 1 | WASM | NF, Any, |s, x| s.v128_create_zero(), |_, _| Out::of(16));
    op!(v, "v128_all_zero", 3 | WASM | NF, Sparse, |s, x| s.v128_all_zero(a128(x)), |x, _| Out::flag(x.a[..16].iter().all(|&p| p == 0)));
    op!(v, "v128_bsl", 1 | WASM | NF, Any, |s, x| s.v128_bsl(a128(x), b128(x), c128(x)), |x, _| { let mut o = Out::of(16); for i in 0..16 { o.d[i] = (x.a[i] & x.b[i]) | (!x.a[i] & x.c[i]); } o });
    op!(v, "v128_load", 1 | WASM | NF, Any, |s, x| { let m = Mem::new(&x.a[..16], 0, 16); let r = s.v128_load(m.ptr()); m.check(&x.a[..16]); r }, |x, _| un::<u8>(16, &x.a, |p| p));
    op!(v, "v128_load_unaligned", 1 | WASM | NF, Any, |s, x| { let m = Mem::new(&x.a[..16], x.align, 16); let r = s.v128_load_unaligned(m.ptr()); m.check(&x.a[..16]); r }, |x, _| un::<u8>(16, &x.a, |p| p));
    op!(v, "v128_store", 1 | WASM | NF, Any, |s, x| { let mut m = Mem::new(&x.b[..16], 0, 16); s.v128_store(m.ptr_mut(), a128(x)); m.check(&x.a[..16]); m.out(16) }, |x, _| un::<u8>(16, &x.a, |p| p));
    op!(v, "v128_store_unaligned", 1 | WASM | NF, Any, |s, x| { let mut m = Mem::new(&x.b[..16], x.align, 16); s.v128_store_unaligned(m.ptr_mut(), a128(x)); m.check(&x.a[..16]); m.out(16) }, |x, _| un::<u8>(16, &x.a, |p| p));
    op!(v, "v256_not", 1 | WASM | NF, Any, |s, x| s.v256_not(a256(x)), |x, _| un::<u8>(32, &x.a, |p| !p));
    op!(v, "v256_create_zero", 1 | WASM | NF, Any, |s, x| s.v256_create_zero(), |_, _| Out::of(32));
    op!(v, "v256_all_zero", 3 | WASM | NF, Sparse, |s, x| s.v256_all_zero(a256(x)), |x, _| Out::flag(x.a[..32].iter().all(|&p| p == 0)));
    op!(v, "v256_bsl", 1 | WASM | NF, Any, |s, x| s.v256_bsl(a256(x), b256(x), c256(x)), |x, _| { let mut o = Out::of(32); for i in 0..32 { o.d[i] = (x.a[i] & x.b[i]) | (!x.a[i] & x.c[i]); } o });
    op!(v, "v256_load", 1 | WASM | NF, Any, |s, x| { let m = Mem::new(&x.a[..32], 0, 32); let r = s.v256_load(m.ptr()); m.check(&x.a[..32]); r }, |x, _| un::<u8>(32, &x.a, |p| p));
    op!(v, "v256_load_unaligned", 1 | WASM | NF, Any, |s, x| { let m = Mem::new(&x.a[..32], x.align, 32); let r = s.v256_load_unaligned(m.ptr()); m.check(&x.a[..32]); r }, |x, _| un::<u8>(32, &x.a, |p| p));
    op!(v, "v256_store", 1 | WASM | NF, Any, |s, x| { let mut m = Mem::new(&x.b[..32], 0, 32); s.v256_store(m.ptr_mut(), a256(x)); m.check(&x.a[..32]); m.out(32) }, |x, _| un::<u8>(32, &x.a, |p| p));
    op!(v, "v256_store_unaligned", 1 | WASM | NF, Any, |s, x| { let mut m = Mem::new(&x.b[..32], x.align, 32); s.v256_store_unaligned(m.ptr_mut(), a256(x)); m.check(&x.a[..32]); m.out(32) }, |x, _| un::<u8>(32, &x.a, |p| p));
    op!(v, "u8x16_splat", 1 | WASM | NF, Any, |s, x| s.u8x16_splat(first::<u8>(&x.a)), |x, _| un::<u8>(16, &x.a, |_| first::<u8>(&x.a)));
    op!(v, "u8x32_splat", 1 | WASM | NF, Any, |s, x| s.u8x32_splat(first::<u8>(&x.a)), |x, _| un::<u8>(32, &x.a, |_| first::<u8>(&x.a)));
    op!(v, "u16x8_splat", 1 | WASM | NF, Any, |s, x| s.u16x8_splat(first::<u16>(&x.a)), |x, _| un::<u16>(16, &x.a, |_| first::<u16>(&x.a)));
    op!(v, "u16x16_splat", 1 | WASM | NF, Any, |s, x| s.u16x16_splat(first::<u16>(&x.a)), |x, _| un::<u16>(32, &x.a, |_| first::<u16>(&x.a)));
    op!(v, "u32x4_splat", 1 | WASM | NF, Any, |s, x| s.u32x4_splat(first::<u32>(&x.a)), |x, _| un::<u32>(16, &x.a, |_| first::<u32>(&x.a)));
    op!(v, "u32x8_splat", 1 | WASM | NF, Any, |s, x| s.u32x8_splat(first::<u32>(&x.a)), |x, _| un::<u32>(32, &x.a, |_| first::<u32>(&x.a)));
    op!(v, "u64x2_splat", 1 | WASM | NF, Any, |s, x| s.u64x2_splat(first::<u64>(&x.a)), |x, _| un::<u64>(16, &x.a, |_| first::<u64>(&x.a)));
    op!(v, "u64x4_splat", 1 | WASM | NF, Any, |s, x| s.u64x4_splat(first::<u64>(&x.a)), |x, _| un::<u64>(32, &x.a, |_| first::<u64>(&x.a)));
    op!(v, "i8x16_splat", 1 | WASM | NF, Any, |s, x| s.i8x16_splat(first::<i8>(&x.a)), |x, _| un::<i8>(16, &x.a, |_| first::<i8>(&x.a)));
    op!(v, "i8x32_splat", 1 | WASM | NF, Any, |s, x| s.i8x32_splat(first::<i8>(&x.a)), |x, _| un::<i8>(32, &x.a, |_| first::<i8>(&x.a)));
    op!(v, "i16x8_splat", 1 | WASM | NF, Any, |s, x| s.i16x8_splat(first::<i16>(&x.a)), |x, _| un::<i16>(16, &x.a, |_| first::<i16>(&x.a)));
    op!(v, "i16x16_splat", 1 | WASM | NF, Any, |s, x| s.i16x16_splat(first::<i16>(&x.a)), |x, _| un::<i16>(32, &x.a, |_| first::<i16>(&x.a)));
    op!(v, "i32x4_splat", 1 | WASM | NF, Any, |s, x| s.i32x4_splat(first::<i32>(&x.a)), |x, _| un::<i32>(16, &x.a, |_| first::<i32>(&x.a)));
    op!(v, "i32x8_splat", 1 | WASM | NF, Any, |s, x| s.i32x8_splat(first::<i32>(&x.a)), |x, _| un::<i32>(32, &x.a, |_| first::<i32>(&x.a)));
    op!(v, "i64x2_splat", 1 | WASM | NF, Any, |s, x| s.i64x2_splat(first::<i64>(&x.a)), |x, _| un::<i64>(16, &x.a, |_| first::<i64>(&x.a)));
    op!(v, "i64x4_splat", 1 | WASM | NF, Any, |s, x| s.i64x4_splat(first::<i64>(&x.a)), |x, _| un::<i64>(32, &x.a, |_| first::<i64>(&x.a)));
    op!(v, "u8x16_add", 1 | WASM | NF, Any, |s, x| s.u8x16_add(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::wrapping_add));
    op!(v, "u8x32_add", 1 | WASM | NF, Any, |s, x| s.u8x32_add(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::wrapping_add));
    op!(v, "u8x16_sub", 1 | WASM | NF, Any, |s, x| s.u8x16_sub(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::wrapping_sub));
    op!(v, "u8x32_sub", 1 | WASM | NF, Any, |s, x| s.u8x32_sub(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::wrapping_sub));
    op!(v, "u16x8_add", 1 | WASM | NF, Any, |s, x| s.u16x8_add(a128(x), b128(x)), |x, _| bi::<u16>(16, &x.a, &x.b, u16::wrapping_add));
    op!(v, "u16x16_add", 1 | WASM | NF, Any, |s, x| s.u16x16_add(a256(x), b256(x)), |x, _| bi::<u16>(32, &x.a, &x.b, u16::wrapping_add));
    op!(v, "u16x8_sub", 1 | WASM | NF, Any, |s, x| s.u16x8_sub(a128(x), b128(x)), |x, _| bi::<u16>(16, &x.a, &x.b, u16::wrapping_sub));
    op!(v, "u16x16_sub", 1 | WASM | NF, Any, |s, x| s.u16x16_sub(a256(x), b256(x)), |x, _| bi::<u16>(32, &x.a, &x.b, u16::wrapping_sub));
    op!(v, "u32x4_add", 1 | WASM | NF, Any, |s, x| s.u32x4_add(a128(x), b128(x)), |x, _| bi::<u32>(16, &x.a, &x.b, u32::wrapping_add));
    op!(v, "u32x8_add", 1 | WASM | NF, Any, |s, x| s.u32x8_add(a256(x), b256(x)), |x, _| bi::<u32>(32, &x.a, &x.b, u32::wrapping_add));
    op!(v, "u32x4_sub", 1 | WASM | NF, Any, |s, x| s.u32x4_sub(a128(x), b128(x)), |x, _| bi::<u32>(16, &x.a, &x.b, u32::wrapping_sub));
    op!(v, "u32x8_sub", 1 | WASM | NF, Any, |s, x| s.u32x8_sub(a256(x), b256(x)), |x, _| bi::<u32>(32, &x.a, &x.b, u32::wrapping_sub));
    op!(v, "u64x2_add", 1 | WASM | NF, Any, |s, x| s.u64x2_add(a128(x), b128(x)), |x, _| bi::<u64>(16, &x.a, &x.b, u64::wrapping_add));
    op!(v, "u64x4_add", 1 | WASM | NF, Any, |s, x| s.u64x4_add(a256(x), b256(x)), |x, _| bi::<u64>(32, &x.a, &x.b, u64::wrapping_add));
    op!(v, "u64x2_sub", 1 | WASM | NF, Any, |s, x| s.u64x2_sub(a128(x), b128(x)), |x, _| bi::<u64>(16, &x.a, &x.b, u64::wrapping_sub));
    op!(v, "u64x4_sub", 1 | WASM | NF, Any, |s, x| s.u64x4_sub(a256(x), b256(x)), |x, _| bi::<u64>(32, &x.a, &x.b, u64::wrapping_sub));
    op!(v, "u8x16_sub_sat", 1 | WASM | NF, Any, |s, x| s.u8x16_sub_sat(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::saturating_sub));
    op!(v, "u8x32_sub_sat", 1 | WASM | NF, Any, |s, x| s.u8x32_sub_sat(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::saturating_sub));
    op!(v, "u16x8_sub_sat", 1 | WASM | NF, Any, |s, x| s.u16x8_sub_sat(a128(x), b128(x)), |x, _| bi::<u16>(16, &x.a, &x.b, u16::saturating_sub));
    op!(v, "u16x16_sub_sat", 1 | WASM | NF, Any, |s, x| s.u16x16_sub_sat(a256(x), b256(x)), |x, _| bi::<u16>(32, &x.a, &x.b, u16::saturating_sub));
}

fn lane_ops_1(v: &mut Vec<Op>) {
    op!(v, "i8x16_sub_sat", 1 | WASM | NF, Any, |s, x| s.i8x16_sub_sat(a128(x), b128(x)), |x, _| bi::<i8>(16, &x.a, &x.b, i8::saturating_sub));
    op!(v, "i8x32_sub_sat", 1 | WASM | NF, Any, |s, x| s.i8x32_sub_sat(a256(x), b256(x)), |x, _| bi::<i8>(32, &x.a, &x.b, i8::saturating_sub));
    op!(v, "i16x8_sub_sat", 1 | WASM | NF, Any, |s, x| s.i16x8_sub_sat(a128(x), b128(x)), |x, _| bi::<i16>(16, &x.a, &x.b, i16::saturating_sub));
    op!(v, "i16x16_sub_sat", 1 | WASM | NF, Any, |s, x| s.i16x16_sub_sat(a256(x), b256(x)), |x, _| bi::<i16>(32, &x.a, &x.b, i16::saturating_sub));
    op!(v, "u8x16_add_sat", 1 | WASM | NF, Any, |s, x| s.u8x16_add_sat(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::saturating_add));
    op!(v, "u8x32_add_sat", 1 | WASM | NF, Any, |s, x| s.u8x32_add_sat(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::saturating_add));
    op!(v, "i8x16_add_sat", 1 | WASM | NF, Any, |s, x| s.i8x16_add_sat(a128(x), b128(x)), |x, _| bi::<i8>(16, &x.a, &x.b, i8::saturating_add));
    op!(v, "i8x32_add_sat", 1 | WASM | NF, Any, |s, x| s.i8x32_add_sat(a256(x), b256(x)), |x, _| bi::<i8>(32, &x.a, &x.b, i8::saturating_add));
    op!(v, "i16x8_mul_lo", 1 | WASM | NF, Any, |s, x| s.i16x8_mul_lo(a128(x), b128(x)), |x, _| bi::<i16>(16, &x.a, &x.b, i16::wrapping_mul));
    op!(v, "i16x16_mul_lo", 1 | WASM | NF, Any, |s, x| s.i16x16_mul_lo(a256(x), b256(x)), |x, _| bi::<i16>(32, &x.a, &x.b, i16::wrapping_mul));
    op!(v, "i32x4_mul_lo", 3 | WASM | NF, Any, |s, x| s.i32x4_mul_lo(a128(x), b128(x)), |x, _| bi::<i32>(16, &x.a, &x.b, i32::wrapping_mul));
    op!(v, "i32x8_mul_lo", 3 | WASM | NF, Any, |s, x| s.i32x8_mul_lo(a256(x), b256(x)), |x, _| bi::<i32>(32, &x.a, &x.b, i32::wrapping_mul));
    op!(v, "u16x8_mul_hi", 1, Any, |s, x| s.u16x8_mul_hi(a128(x), b128(x)), |x, _| bi::<u16>(16, &x.a, &x.b, |p, q| ((p as u32 * q as u32) >> 16) as u16));
    op!(v, "u16x16_mul_hi", 1, Any, |s, x| s.u16x16_mul_hi(a256(x), b256(x)), |x, _| bi::<u16>(32, &x.a, &x.b, |p, q| ((p as u32 * q as u32) >> 16) as u16));
    op!(v, "i16x8_mul_hi", 1, Any, |s, x| s.i16x8_mul_hi(a128(x), b128(x)), |x, _| bi::<i16>(16, &x.a, &x.b, |p, q| ((p as i32 * q as i32) >> 16) as i16));
    op!(v, "i16x16_mul_hi", 1, Any, |s, x| s.i16x16_mul_hi(a256(x), b256(x)), |x, _| bi::<i16>(32, &x.a, &x.b, |p, q| ((p as i32 * q as i32) >> 16) as i16));
    op!(v, "u8x16_eq", 1 | WASM | NF, Any, |s, x| s.u8x16_eq(a128(x), b128(x)), |x, _| cmp::<u8>(16, &x.a, &x.b, |p, q| p == q));
    op!(v, "u8x32_eq", 1 | WASM | NF, Any, |s, x| s.u8x32_eq(a256(x), b256(x)), |x, _| cmp::<u8>(32, &x.a, &x.b, |p, q| p == q));
    op!(v, "u16x8_eq", 1 | WASM | NF, Any, |s, x| s.u16x8_eq(a128(x), b128(x)), |x, _| cmp::<u16>(16, &x.a, &x.b, |p, q| p == q));
    op!(v, "u16x16_eq", 1 | WASM | NF, Any, |s, x| s.u16x16_eq(a256(x), b256(x)), |x, _| cmp::<u16>(32, &x.a, &x.b, |p, q| p == q));
    op!(v, "u32x4_eq", 1 | WASM | NF, Any, |s, x| s.u32x4_eq(a128(x), b128(x)), |x, _| cmp::<u32>(16, &x.a, &x.b, |p, q| p == q));
    op!(v, "u32x8_eq", 1 | WASM | NF, Any, |s, x| s.u32x8_eq(a256(x), b256(x)), |x, _| cmp::<u32>(32, &x.a, &x.b, |p, q| p == q));
    op!(v, "u8x16_lt", 1 | WASM | NF, Any, |s, x| s.u8x16_lt(a128(x), b128(x)), |x, _| cmp::<u8>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "u8x32_lt", 1 | WASM | NF, Any, |s, x| s.u8x32_lt(a256(x), b256(x)), |x, _| cmp::<u8>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "u8x16_max", 1 | WASM | NF, Any, |s, x| s.u8x16_max(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::max));
    op!(v, "u8x32_max", 1 | WASM | NF, Any, |s, x| s.u8x32_max(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::max));
    op!(v, "u8x16_min", 1 | WASM | NF, Any, |s, x| s.u8x16_min(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::min));
    op!(v, "u8x32_min", 1 | WASM | NF, Any, |s, x| s.u8x32_min(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::min));
    op!(v, "u16x8_lt", 1 | WASM | NF, Any, |s, x| s.u16x8_lt(a128(x), b128(x)), |x, _| cmp::<u16>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "u16x16_lt", 1 | WASM | NF, Any, |s, x| s.u16x16_lt(a256(x), b256(x)), |x, _| cmp::<u16>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "u16x8_max", 3 | WASM | NF, Any, |s, x| s.u16x8_max(a128(x), b128(x)), |x, _| bi::<u16>(16, &x.a, &x.b, u16::max));
    op!(v, "u16x16_max", 3 | WASM | NF, Any, |s, x| s.u16x16_max(a256(x), b256(x)), |x, _| bi::<u16>(32, &x.a, &x.b, u16::max));
    op!(v, "u16x8_min", 3 | WASM | NF, Any, |s, x| s.u16x8_min(a128(x), b128(x)), |x, _| bi::<u16>(16, &x.a, &x.b, u16::min));
    op!(v, "u16x16_min", 3 | WASM | NF, Any, |s, x| s.u16x16_min(a256(x), b256(x)), |x, _| bi::<u16>(32, &x.a, &x.b, u16::min));
    op!(v, "u32x4_lt", 1 | WASM | NF, Any, |s, x| s.u32x4_lt(a128(x), b128(x)), |x, _| cmp::<u32>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "u32x8_lt", 1 | WASM | NF, Any, |s, x| s.u32x8_lt(a256(x), b256(x)), |x, _| cmp::<u32>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "u32x4_max", 3 | WASM | NF, Any, |s, x| s.u32x4_max(a128(x), b128(x)), |x, _| bi::<u32>(16, &x.a, &x.b, u32::max));
    op!(v, "u32x8_max", 3 | WASM | NF, Any, |s, x| s.u32x8_max(a256(x), b256(x)), |x, _| bi::<u32>(32, &x.a, &x.b, u32::max));
    op!(v, "u32x4_min", 3 | WASM | NF, Any, |s, x| s.u32x4_min(a128(x), b128(x)), |x, _| bi::<u32>(16, &x.a, &x.b, u32::min));
    op!(v, "u32x8_min", 3 | WASM | NF, Any, |s, x| s.u32x8_min(a256(x), b256(x)), |x, _| bi::<u32>(32, &x.a, &x.b, u32::min));
    op!(v, "i8x16_lt", 1 | WASM | NF, Any, |s, x| s.i8x16_lt(a128(x), b128(x)), |x, _| cmp::<i8>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "i8x32_lt", 1 | WASM | NF, Any, |s, x| s.i8x32_lt(a256(x), b256(x)), |x, _| cmp::<i8>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "i8x16_max", 3 | WASM | NF, Any, |s, x| s.i8x16_max(a128(x), b128(x)), |x, _| bi::<i8>(16, &x.a, &x.b, i8::max));
    op!(v, "i8x32_max", 3 | WASM | NF, Any, |s, x| s.i8x32_max(a256(x), b256(x)), |x, _| bi::<i8>(32, &x.a, &x.b, i8::max));
    op!(v, "i8x16_min", 3 | WASM | NF, Any, |s, x| s.i8x16_min(a128(x), b128(x)), |x, _| bi::<i8>(16, &x.a, &x.b, i8::min));
    op!(v, "i8x32_min", 3 | WASM | NF, Any, |s, x| s.i8x32_min(a256(x), b256(x)), |x, _| bi::<i8>(32, &x.a, &x.b, i8::min));
    op!(v, "i16x8_lt", 1 | WASM | NF, Any, |s, x| s.i16x8_lt(a128(x), b128(x)), |x, _| cmp::<i16>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "i16x16_lt", 1 | WASM | NF, Any, |s, x| s.i16x16_lt(a256(x), b256(x)), |x, _| cmp::<i16>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "i16x8_max", 1 | WASM | NF, Any, |s, x| s.i16x8_max(a128(x), b128(x)), |x, _| bi::<i16>(16, &x.a, &x.b, i16::max));
    op!(v, "i16x16_max", 1 | WASM | NF, Any, |s, x| s.i16x16_max(a256(x), b256(x)), |x, _| bi::<i16>(32, &x.a, &x.b, i16::max));
    op!(v, "i16x8_min", 1 | WASM | NF, Any, |s, x| s.i16x8_min(a128(x), b128(x)), |x, _| bi::<i16>(16, &x.a, &x.b, i16::min));
    op!(v, "i16x16_min", 1 | WASM | NF, Any, |s, x| s.i16x16_min(a256(x), b256(x)), |x, _| bi::<i16>(32, &x.a, &x.b, i16::min));
    op!(v, "i32x4_lt", 1 | WASM | NF, Any, |s, x| s.i32x4_lt(a128(x), b128(x)), |x, _| cmp::<i32>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "i32x8_lt", 1 | WASM | NF, Any, |s, x| s.i32x8_lt(a256(x), b256(x)), |x, _| cmp::<i32>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "i32x4_max", 3 | WASM | NF, Any, |s, x| s.i32x4_max(a128(x), b128(x)), |x, _| bi::<i32>(16, &x.a, &x.b, i32::max));
    op!(v, "i32x8_max", 3 | WASM | NF, Any, |s, x| s.i32x8_max(a256(x), b256(x)), |x, _| bi::<i32>(32, &x.a, &x.b, i32::max));
    op!(v, "i32x4_min", 3 | WASM | NF, Any, |s, x| s.i32x4_min(a128(x), b128(x)), |x, _| bi::<i32>(16, &x.a, &x.b, i32::min));
    op!(v, "i32x8_min", 3 | WASM | NF, Any, |s, x| s.i32x8_min(a256(x), b256(x)), |x, _| bi::<i32>(32, &x.a, &x.b, i32::min));
    op!(v, "u8x16_avgr", 1 | WASM | NF, Any, |s, x| s.u8x16_avgr(a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| ((p as u16 + q as u16 + 1) >> 1) as u8));
    op!(v, "u8x32_avgr", 1 | WASM | NF, Any, |s, x| s.u8x32_avgr(a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| ((p as u16 + q as u16 + 1) >> 1) as u8));
}

fn lane_ops_2(v: &mut Vec<Op>) {
    op_imm!(v, "u16x8_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| s.u16x8_shl::<I>(a128(x)), |x, i| un::<u16>(16, &x.a, |p| p << i));
    op_imm!(v, "u16x16_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| s.u16x16_shl::<I>(a256(x)), |x, i| un::<u16>(32, &x.a, |p| p << i));
    op_imm!(v, "u16x8_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| s.u16x8_shr::<I>(a128(x)), |x, i| un::<u16>(16, &x.a, |p| p >> i));
    op_imm!(v, "u16x16_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| s.u16x16_shr::<I>(a256(x)), |x, i| un::<u16>(32, &x.a, |p| p >> i));
    op_imm!(v, "u32x4_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], |s, x| s.u32x4_shl::<I>(a128(x)), |x, i| un::<u32>(16, &x.a, |p| p << i));
    op_imm!(v, "u32x8_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], |s, x| s.u32x8_shl::<I>(a256(x)), |x, i| un::<u32>(32, &x.a, |p| p << i));
    op_imm!(v, "u32x4_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], |s, x| s.u32x4_shr::<I>(a128(x)), |x, i| un::<u32>(16, &x.a, |p| p >> i));
    op_imm!(v, "u32x8_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], |s, x| s.u32x8_shr::<I>(a256(x)), |x, i| un::<u32>(32, &x.a, |p| p >> i));
    op!(v, "u16x8_bswap", 2 | WASM | NF, Any, |s, x| s.u16x8_bswap(a128(x)), |x, _| un::<u16>(16, &x.a, u16::swap_bytes));
    op!(v, "u16x16_bswap", 2 | WASM | NF, Any, |s, x| s.u16x16_bswap(a256(x)), |x, _| un::<u16>(32, &x.a, u16::swap_bytes));
    op!(v, "u32x4_bswap", 2 | WASM | NF, Any, |s, x| s.u32x4_bswap(a128(x)), |x, _| un::<u32>(16, &x.a, u32::swap_bytes));
    op!(v, "u32x8_bswap", 2 | WASM | NF, Any, |s, x| s.u32x8_bswap(a256(x)), |x, _| un::<u32>(32, &x.a, u32::swap_bytes));
    op!(v, "u64x2_bswap", 2 | WASM | NF, Any, |s, x| s.u64x2_bswap(a128(x)), |x, _| un::<u64>(16, &x.a, u64::swap_bytes));
    op!(v, "u64x4_bswap", 2 | WASM | NF, Any, |s, x| s.u64x4_bswap(a256(x)), |x, _| un::<u64>(32, &x.a, u64::swap_bytes));
    op!(v, "u8x16_swizzle", 2 | WASM | NF, Index, |s, x| s.u8x16_swizzle(a128(x), b128(x)), |x, _| swizzle(16, &x.a, &x.b));
    op!(v, "u8x16x2_swizzle", 2 | WASM | NF, Index, |s, x| s.u8x16x2_swizzle(a256(x), b256(x)), |x, _| swizzle(32, &x.a, &x.b));
    op!(v, "u8x16_any_zero", 1 | WASM | NF, Sparse, |s, x| s.u8x16_any_zero(a128(x)), |x, _| Out::flag(x.a[..16].contains(&0)));
    op!(v, "u8x16_bitmask", 1 | WASM, Any, |s, x| s.u8x16_bitmask(a128(x)) as u32, |x, _| Out::num(x.a[..16].iter().enumerate().fold(0u32, |m, (i, &p)| m | ((p >> 7) as u32) << i)));
    op!(v, "u8x32_any_zero", 1 | WASM | NF, Sparse, |s, x| s.u8x32_any_zero(a256(x)), |x, _| Out::flag(x.a[..32].contains(&0)));
    op!(v, "u8x32_bitmask", 1 | WASM, Any, |s, x| s.u8x32_bitmask(a256(x)) as u32, |x, _| Out::num(x.a[..32].iter().enumerate().fold(0u32, |m, (i, &p)| m | ((p >> 7) as u32) << i)));
    op!(v, "u8x16_zip_lo", 1 | WASM | NF, Any, |s, x| s.u8x16_zip_lo(a128(x), b128(x)), |x, _| zip::<u8>(16, &x.a, &x.b, false));
    op!(v, "u8x16x2_zip_lo", 1 | WASM | NF, Any, |s, x| s.u8x16x2_zip_lo(a256(x), b256(x)), |x, _| zip::<u8>(32, &x.a, &x.b, false));
    op!(v, "u8x16_zip_hi", 1 | WASM | NF, Any, |s, x| s.u8x16_zip_hi(a128(x), b128(x)), |x, _| zip::<u8>(16, &x.a, &x.b, true));
    op!(v, "u8x16x2_zip_hi", 1 | WASM | NF, Any, |s, x| s.u8x16x2_zip_hi(a256(x), b256(x)), |x, _| zip::<u8>(32, &x.a, &x.b, true));
    op!(v, "u16x8_zip_lo", 1 | WASM | NF, Any, |s, x| s.u16x8_zip_lo(a128(x), b128(x)), |x, _| zip::<u16>(16, &x.a, &x.b, false));
    op!(v, "u16x8x2_zip_lo", 1 | WASM | NF, Any, |s, x| s.u16x8x2_zip_lo(a256(x), b256(x)), |x, _| zip::<u16>(32, &x.a, &x.b, false));
    op!(v, "u16x8_zip_hi", 1 | WASM | NF, Any, |s, x| s.u16x8_zip_hi(a128(x), b128(x)), |x, _| zip::<u16>(16, &x.a, &x.b, true));
    op!(v, "u16x8x2_zip_hi", 1 | WASM | NF, Any, |s, x| s.u16x8x2_zip_hi(a256(x), b256(x)), |x, _| zip::<u16>(32, &x.a, &x.b, true));
    op!(v, "u32x4_zip_lo", 1 | WASM | NF, Any, |s, x| s.u32x4_zip_lo(a128(x), b128(x)), |x, _| zip::<u32>(16, &x.a, &x.b, false));
    op!(v, "u32x4x2_zip_lo", 1 | WASM | NF, Any, |s, x| s.u32x4x2_zip_lo(a256(x), b256(x)), |x, _| zip::<u32>(32, &x.a, &x.b, false));
    op!(v, "u32x4_zip_hi", 1 | WASM | NF, Any, |s, x| s.u32x4_zip_hi(a128(x), b128(x)), |x, _| zip::<u32>(16, &x.a, &x.b, true));
    op!(v, "u32x4x2_zip_hi", 1 | WASM | NF, Any, |s, x| s.u32x4x2_zip_hi(a256(x), b256(x)), |x, _| zip::<u32>(32, &x.a, &x.b, true));
    op!(v, "u64x2_zip_lo", 1 | WASM | NF, Any, |s, x| s.u64x2_zip_lo(a128(x), b128(x)), |x, _| zip::<u64>(16, &x.a, &x.b, false));
    op!(v, "u64x2x2_zip_lo", 1 | WASM | NF, Any, |s, x| s.u64x2x2_zip_lo(a256(x), b256(x)), |x, _| zip::<u64>(32, &x.a, &x.b, false));
    op!(v, "u64x2_zip_hi", 1 | WASM | NF, Any, |s, x| s.u64x2_zip_hi(a128(x), b128(x)), |x, _| zip::<u64>(16, &x.a, &x.b, true));
    op!(v, "u64x2x2_zip_hi", 1 | WASM | NF, Any, |s, x| s.u64x2x2_zip_hi(a256(x), b256(x)), |x, _| zip::<u64>(32, &x.a, &x.b, true));
    op!(v, "v128x2_zip_lo", 1 | WASM | NF, Any, |s, x| s.v128x2_zip_lo(a256(x), b256(x)), |x, _| cat(&x.a[0..0+16], &x.b[0..0+16]));
    op!(v, "v128x2_zip_hi", 1 | WASM | NF, Any, |s, x| s.v128x2_zip_hi(a256(x), b256(x)), |x, _| cat(&x.a[16..16+16], &x.b[16..16+16]));
    op!(v, "u64x4_unzip_even", 1 | WASM | NF, Any, |s, x| s.u64x4_unzip_even(a256(x), b256(x)), |x, _| cat(&[&x.a[0..0+8], &x.a[0+16..0+24]].concat(), &[&x.b[0..0+8], &x.b[0+16..0+24]].concat()));
    op!(v, "u64x4_unzip_odd", 1 | WASM | NF, Any, |s, x| s.u64x4_unzip_odd(a256(x), b256(x)), |x, _| cat(&[&x.a[8..8+8], &x.a[8+16..8+24]].concat(), &[&x.b[8..8+8], &x.b[8+16..8+24]].concat()));
    op!(v, "u8x16_unzip_even", 5 | WASM | NF, Any, |s, x| s.u8x16_unzip_even(a128(x), b128(x)), |x, _| unzip(16, &x.a, &x.b, 0));
    op!(v, "u8x32_unzip_even", 5 | WASM | NF, Any, |s, x| s.u8x32_unzip_even(a256(x), b256(x)), |x, _| unzip(32, &x.a, &x.b, 0));
    op!(v, "u8x16_unzip_odd", 5 | WASM | NF, Any, |s, x| s.u8x16_unzip_odd(a128(x), b128(x)), |x, _| unzip(16, &x.a, &x.b, 1));
    op!(v, "u8x32_unzip_odd", 5 | WASM | NF, Any, |s, x| s.u8x32_unzip_odd(a256(x), b256(x)), |x, _| unzip(32, &x.a, &x.b, 1));
    op!(v, "i16x8_maddubs", 2, Any, |s, x| s.i16x8_maddubs(a128(x), b128(x)), |x, _| maddubs(16, &x.a, &x.b));
    op!(v, "i16x16_maddubs", 2, Any, |s, x| s.i16x16_maddubs(a256(x), b256(x)), |x, _| maddubs(32, &x.a, &x.b));
    op!(v, "i16x8_madd", 1, Any, |s, x| s.i16x8_madd(a128(x), b128(x)), |x, _| madd(16, &x.a, &x.b));
    op!(v, "i16x16_madd", 1, Any, |s, x| s.i16x16_madd(a256(x), b256(x)), |x, _| madd(32, &x.a, &x.b));
    op!(v, "u8x16_blendv", 3, Any, |s, x| s.u8x16_blendv(a128(x), b128(x), c128(x)), |x, _| blendv(16, x));
    op!(v, "u8x32_blendv", 3, Any, |s, x| s.u8x32_blendv(a256(x), b256(x), c256(x)), |x, _| blendv(32, x));
    op!(v, "i16x8_packus", 1, Any, |s, x| s.i16x8_packus(a128(x), b128(x)), |x, _| packus(x));
    op!(v, "u16x16_from_u8x16", 1 | WASM | NF, Any, |s, x| s.u16x16_from_u8x16(a128(x)), |x, _| { let mut o = Out::of(32); for i in 0..16 { o.d[2 * i] = x.a[i]; } o });
    op_imm!(v, "u16x8_blend", 3, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255], |s, x| s.u16x8_blend::<I>(a128(x), b128(x)), |x, i| blend(16, 2, x, i));
    op_imm!(v, "u32x8_blend", 4, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255], |s, x| s.u32x8_blend::<I>(a256(x), b256(x)), |x, i| blend(32, 4, x, i));
    op_imm!(v, "u64x4_permute", 4, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255], |s, x| s.u64x4_permute::<I>(a256(x)), |x, i| { let mut o = Out::of(32); for k in 0..4 { let j = (i >> (2 * k) & 3) as usize; o.d[k * 8..k * 8 + 8].copy_from_slice(&x.a[j * 8..j * 8 + 8]); } o });
    op!(v, "Scalable<V128>::and", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::and(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p & q));
    op!(v, "Scalable<V128>::or", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::or(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p | q));
    op!(v, "Scalable<V128>::xor", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::xor(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p ^ q));
    op!(v, "Scalable<V128>::andnot", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::andnot(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| p & !q));
    op!(v, "Scalable<V128>::u8xn_add", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_add(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::wrapping_add));
}

fn lane_ops_3(v: &mut Vec<Op>) {
    op!(v, "Scalable<V128>::u8xn_sub", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_sub(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::wrapping_sub));
    op!(v, "Scalable<V128>::u8xn_add_sat", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_add_sat(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::saturating_add));
    op!(v, "Scalable<V128>::u8xn_sub_sat", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_sub_sat(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, u8::saturating_sub));
    op!(v, "Scalable<V128>::u8xn_avgr", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_avgr(s, a128(x), b128(x)), |x, _| bi::<u8>(16, &x.a, &x.b, |p, q| ((p as u16 + q as u16 + 1) >> 1) as u8));
    op!(v, "Scalable<V128>::i8xn_add_sat", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::i8xn_add_sat(s, a128(x), b128(x)), |x, _| bi::<i8>(16, &x.a, &x.b, i8::saturating_add));
    op!(v, "Scalable<V128>::u32xn_sub", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u32xn_sub(s, a128(x), b128(x)), |x, _| bi::<u32>(16, &x.a, &x.b, u32::wrapping_sub));
    op!(v, "Scalable<V128>::u32xn_max", 3 | WASM | NF, Any, |s, x| Scalable::<V128>::u32xn_max(s, a128(x), b128(x)), |x, _| bi::<u32>(16, &x.a, &x.b, u32::max));
    op!(v, "Scalable<V128>::u8xn_eq", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_eq(s, a128(x), b128(x)), |x, _| cmp::<u8>(16, &x.a, &x.b, |p, q| p == q));
    op!(v, "Scalable<V128>::i8xn_lt", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::i8xn_lt(s, a128(x), b128(x)), |x, _| cmp::<i8>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "Scalable<V128>::u32xn_lt", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u32xn_lt(s, a128(x), b128(x)), |x, _| cmp::<u32>(16, &x.a, &x.b, |p, q| p < q));
    op!(v, "Scalable<V128>::u8xn_splat", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u8xn_splat(s, first::<u8>(&x.a)), |x, _| un::<u8>(16, &x.a, |_| first::<u8>(&x.a)));
    op!(v, "Scalable<V128>::i8xn_splat", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::i8xn_splat(s, first::<i8>(&x.a)), |x, _| un::<i8>(16, &x.a, |_| first::<i8>(&x.a)));
    op!(v, "Scalable<V128>::u32xn_splat", 1 | WASM | NF, Any, |s, x| Scalable::<V128>::u32xn_splat(s, first::<u32>(&x.a)), |x, _| un::<u32>(16, &x.a, |_| first::<u32>(&x.a)));
    op_imm!(v, "Scalable<V128>::u16xn_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| Scalable::<V128>::u16xn_shl::<I>(s, a128(x)), |x, i| un::<u16>(16, &x.a, |p| p << i));
    op_imm!(v, "Scalable<V128>::u16xn_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| Scalable::<V128>::u16xn_shr::<I>(s, a128(x)), |x, i| un::<u16>(16, &x.a, |p| p >> i));
    op_imm!(v, "Scalable<V128>::u32xn_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], |s, x| Scalable::<V128>::u32xn_shr::<I>(s, a128(x)), |x, i| un::<u32>(16, &x.a, |p| p >> i));
    op!(v, "Scalable<V128>::u8x16xn_swizzle", 2 | WASM | NF, Index, |s, x| Scalable::<V128>::u8x16xn_swizzle(s, a128(x), b128(x)), |x, _| swizzle(16, &x.a, &x.b));
    op!(v, "Scalable<V128>::all_zero", 3 | WASM | NF, Sparse, |s, x| Scalable::<V128>::all_zero(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().all(|&p| p == 0)));
    op!(v, "Scalable<V128>::mask8xn_all", 1 | WASM | NF, Mask, |s, x| Scalable::<V128>::mask8xn_all(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().all(|&p| p == 0xFF)));
    op!(v, "Scalable<V128>::mask8xn_any", 1 | WASM | NF, Mask, |s, x| Scalable::<V128>::mask8xn_any(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().any(|&p| p == 0xFF)));
    op!(v, "Scalable<V128>::u8xn_highbit_all", 1 | WASM | NF, High, |s, x| Scalable::<V128>::u8xn_highbit_all(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().all(|&p| p >= 0x80)));
    op!(v, "Scalable<V128>::u8xn_highbit_any", 1 | WASM | NF, High, |s, x| Scalable::<V128>::u8xn_highbit_any(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().any(|&p| p >= 0x80)));
    op!(v, "Scalable<V128>::u16xn_bswap", 2 | WASM | NF, Any, |s, x| Scalable::<V128>::u16xn_bswap(s, a128(x)), |x, _| un::<u16>(16, &x.a, u16::swap_bytes));
    op!(v, "Scalable<V128>::u32xn_bswap", 2 | WASM | NF, Any, |s, x| Scalable::<V128>::u32xn_bswap(s, a128(x)), |x, _| un::<u32>(16, &x.a, u32::swap_bytes));
    op!(v, "Scalable<V128>::u64xn_bswap", 2 | WASM | NF, Any, |s, x| Scalable::<V128>::u64xn_bswap(s, a128(x)), |x, _| un::<u64>(16, &x.a, u64::swap_bytes));
    op!(v, "Scalable<V256>::and", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::and(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p & q));
    op!(v, "Scalable<V256>::or", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::or(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p | q));
    op!(v, "Scalable<V256>::xor", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::xor(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p ^ q));
    op!(v, "Scalable<V256>::andnot", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::andnot(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| p & !q));
    op!(v, "Scalable<V256>::u8xn_add", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_add(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::wrapping_add));
    op!(v, "Scalable<V256>::u8xn_sub", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_sub(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::wrapping_sub));
    op!(v, "Scalable<V256>::u8xn_add_sat", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_add_sat(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::saturating_add));
    op!(v, "Scalable<V256>::u8xn_sub_sat", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_sub_sat(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, u8::saturating_sub));
    op!(v, "Scalable<V256>::u8xn_avgr", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_avgr(s, a256(x), b256(x)), |x, _| bi::<u8>(32, &x.a, &x.b, |p, q| ((p as u16 + q as u16 + 1) >> 1) as u8));
    op!(v, "Scalable<V256>::i8xn_add_sat", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::i8xn_add_sat(s, a256(x), b256(x)), |x, _| bi::<i8>(32, &x.a, &x.b, i8::saturating_add));
    op!(v, "Scalable<V256>::u32xn_sub", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u32xn_sub(s, a256(x), b256(x)), |x, _| bi::<u32>(32, &x.a, &x.b, u32::wrapping_sub));
    op!(v, "Scalable<V256>::u32xn_max", 3 | WASM | NF, Any, |s, x| Scalable::<V256>::u32xn_max(s, a256(x), b256(x)), |x, _| bi::<u32>(32, &x.a, &x.b, u32::max));
    op!(v, "Scalable<V256>::u8xn_eq", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_eq(s, a256(x), b256(x)), |x, _| cmp::<u8>(32, &x.a, &x.b, |p, q| p == q));
    op!(v, "Scalable<V256>::i8xn_lt", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::i8xn_lt(s, a256(x), b256(x)), |x, _| cmp::<i8>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "Scalable<V256>::u32xn_lt", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u32xn_lt(s, a256(x), b256(x)), |x, _| cmp::<u32>(32, &x.a, &x.b, |p, q| p < q));
    op!(v, "Scalable<V256>::u8xn_splat", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u8xn_splat(s, first::<u8>(&x.a)), |x, _| un::<u8>(32, &x.a, |_| first::<u8>(&x.a)));
    op!(v, "Scalable<V256>::i8xn_splat", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::i8xn_splat(s, first::<i8>(&x.a)), |x, _| un::<i8>(32, &x.a, |_| first::<i8>(&x.a)));
    op!(v, "Scalable<V256>::u32xn_splat", 1 | WASM | NF, Any, |s, x| Scalable::<V256>::u32xn_splat(s, first::<u32>(&x.a)), |x, _| un::<u32>(32, &x.a, |_| first::<u32>(&x.a)));
    op_imm!(v, "Scalable<V256>::u16xn_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| Scalable::<V256>::u16xn_shl::<I>(s, a256(x)), |x, i| un::<u16>(32, &x.a, |p| p << i));
    op_imm!(v, "Scalable<V256>::u16xn_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| Scalable::<V256>::u16xn_shr::<I>(s, a256(x)), |x, i| un::<u16>(32, &x.a, |p| p >> i));
    op_imm!(v, "Scalable<V256>::u32xn_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], |s, x| Scalable::<V256>::u32xn_shr::<I>(s, a256(x)), |x, i| un::<u32>(32, &x.a, |p| p >> i));
    op!(v, "Scalable<V256>::u8x16xn_swizzle", 2 | WASM | NF, Index, |s, x| Scalable::<V256>::u8x16xn_swizzle(s, a256(x), b256(x)), |x, _| swizzle(32, &x.a, &x.b));
    op!(v, "Scalable<V256>::all_zero", 3 | WASM | NF, Sparse, |s, x| Scalable::<V256>::all_zero(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().all(|&p| p == 0)));
    op!(v, "Scalable<V256>::mask8xn_all", 1 | WASM | NF, Mask, |s, x| Scalable::<V256>::mask8xn_all(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().all(|&p| p == 0xFF)));
    op!(v, "Scalable<V256>::mask8xn_any", 1 | WASM | NF, Mask, |s, x| Scalable::<V256>::mask8xn_any(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().any(|&p| p == 0xFF)));
    op!(v, "Scalable<V256>::u8xn_highbit_all", 1 | WASM | NF, High, |s, x| Scalable::<V256>::u8xn_highbit_all(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().all(|&p| p >= 0x80)));
    op!(v, "Scalable<V256>::u8xn_highbit_any", 1 | WASM | NF, High, |s, x| Scalable::<V256>::u8xn_highbit_any(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().any(|&p| p >= 0x80)));
    op!(v, "Scalable<V256>::u16xn_bswap", 2 | WASM | NF, Any, |s, x| Scalable::<V256>::u16xn_bswap(s, a256(x)), |x, _| un::<u16>(32, &x.a, u16::swap_bytes));
    op!(v, "Scalable<V256>::u32xn_bswap", 2 | WASM | NF, Any, |s, x| Scalable::<V256>::u32xn_bswap(s, a256(x)), |x, _| un::<u32>(32, &x.a, u32::swap_bytes));
    op!(v, "Scalable<V256>::u64xn_bswap", 2 | WASM | NF, Any, |s, x| Scalable::<V256>::u64xn_bswap(s, a256(x)), |x, _| un::<u64>(32, &x.a, u64::swap_bytes));
}

pub fn lane_ops() -> Vec<Op> {
    let mut v = Vec::new();
    lane_ops_0(&mut v);
    lane_ops_1(&mut v);
    lane_ops_2(&mut v);
    lane_ops_3(&mut v);
    v
}

fn block_ops_0(v: &mut Vec<Op>) {
    op!(v, "hex::check_xn<V128>", 1 | WASM | NF, Hex, |s, x| hex::check_xn(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().all(u8::is_ascii_hexdigit)));
    op!(v, "ascii::to_ascii_lowercase<V128>", 1 | WASM | NF, Text, |s, x| ascii::to_ascii_lowercase(s, a128(x)), |x, _| un::<u8>(16, &x.a, |p| p.to_ascii_lowercase()));
    op!(v, "ascii::to_ascii_uppercase<V128>", 1 | WASM | NF, Text, |s, x| ascii::to_ascii_uppercase(s, a128(x)), |x, _| un::<u8>(16, &x.a, |p| p.to_ascii_uppercase()));
    op!(v, "table::u8x16xn_lookup<V128>", 2 | WASM | NF, Index, |s, x| table::u8x16xn_lookup(s, a128(x), b128(x)), |x, _| lookup(16, &x.a, &x.b));
    op!(v, "alsw::check_ascii_xn<V128> HexSpec", 2 | WASM | NF, Alphabet(HexSpec::alphabet), |s, x| alsw::check_ascii_xn(s, a128(x), HexSpec::CHECK), |x, _| Out::flag(x.a[..16].iter().all(|&p| HexSpec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V128> HexSpec", 2 | WASM | NF, Alphabet(HexSpec::alphabet), |s, x| alsw_decode(x, 16, alsw::decode_ascii_xn(s, a128(x), HexSpec::CHECK, HexSpec::DECODE), HexSpec::value), |x, _| spec_text(16, x, HexSpec::value));
    op!(v, "alsw::check_ascii_xn<V128> Base32Spec", 2 | WASM | NF, Alphabet(Base32Spec::alphabet), |s, x| alsw::check_ascii_xn(s, a128(x), Base32Spec::CHECK), |x, _| Out::flag(x.a[..16].iter().all(|&p| Base32Spec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V128> Base32Spec", 2 | WASM | NF, Alphabet(Base32Spec::alphabet), |s, x| alsw_decode(x, 16, alsw::decode_ascii_xn(s, a128(x), Base32Spec::CHECK, Base32Spec::DECODE), Base32Spec::value), |x, _| spec_text(16, x, Base32Spec::value));
    op!(v, "alsw::check_ascii_xn<V128> Base32HexSpec", 2 | WASM | NF, Alphabet(Base32HexSpec::alphabet), |s, x| alsw::check_ascii_xn(s, a128(x), Base32HexSpec::CHECK), |x, _| Out::flag(x.a[..16].iter().all(|&p| Base32HexSpec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V128> Base32HexSpec", 2 | WASM | NF, Alphabet(Base32HexSpec::alphabet), |s, x| alsw_decode(x, 16, alsw::decode_ascii_xn(s, a128(x), Base32HexSpec::CHECK, Base32HexSpec::DECODE), Base32HexSpec::value), |x, _| spec_text(16, x, Base32HexSpec::value));
    op!(v, "alsw::check_ascii_xn<V128> Base64Spec", 2 | WASM | NF, Alphabet(Base64Spec::alphabet), |s, x| alsw::check_ascii_xn(s, a128(x), Base64Spec::CHECK), |x, _| Out::flag(x.a[..16].iter().all(|&p| Base64Spec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V128> Base64Spec", 2 | WASM | NF, Alphabet(Base64Spec::alphabet), |s, x| alsw_decode(x, 16, alsw::decode_ascii_xn(s, a128(x), Base64Spec::CHECK, Base64Spec::DECODE), Base64Spec::value), |x, _| spec_text(16, x, Base64Spec::value));
    op!(v, "alsw::check_ascii_xn<V128> Base64UrlSpec", 2 | WASM | NF, Alphabet(Base64UrlSpec::alphabet), |s, x| alsw::check_ascii_xn(s, a128(x), Base64UrlSpec::CHECK), |x, _| Out::flag(x.a[..16].iter().all(|&p| Base64UrlSpec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V128> Base64UrlSpec", 2 | WASM | NF, Alphabet(Base64UrlSpec::alphabet), |s, x| alsw_decode(x, 16, alsw::decode_ascii_xn(s, a128(x), Base64UrlSpec::CHECK, Base64UrlSpec::DECODE), Base64UrlSpec::value), |x, _| spec_text(16, x, Base64UrlSpec::value));
    op!(v, "hex::check_xn<V256>", 1 | WASM | NF, Hex, |s, x| hex::check_xn(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().all(u8::is_ascii_hexdigit)));
    op!(v, "ascii::to_ascii_lowercase<V256>", 1 | WASM | NF, Text, |s, x| ascii::to_ascii_lowercase(s, a256(x)), |x, _| un::<u8>(32, &x.a, |p| p.to_ascii_lowercase()));
    op!(v, "ascii::to_ascii_uppercase<V256>", 1 | WASM | NF, Text, |s, x| ascii::to_ascii_uppercase(s, a256(x)), |x, _| un::<u8>(32, &x.a, |p| p.to_ascii_uppercase()));
    op!(v, "table::u8x16xn_lookup<V256>", 2 | WASM | NF, Index, |s, x| table::u8x16xn_lookup(s, a256(x), b256(x)), |x, _| lookup(32, &x.a, &x.b));
    op!(v, "alsw::check_ascii_xn<V256> HexSpec", 2 | WASM | NF, Alphabet(HexSpec::alphabet), |s, x| alsw::check_ascii_xn(s, a256(x), HexSpec::CHECK.x2()), |x, _| Out::flag(x.a[..32].iter().all(|&p| HexSpec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V256> HexSpec", 2 | WASM | NF, Alphabet(HexSpec::alphabet), |s, x| alsw_decode(x, 32, alsw::decode_ascii_xn(s, a256(x), HexSpec::CHECK.x2(), HexSpec::DECODE.x2()), HexSpec::value), |x, _| spec_text(32, x, HexSpec::value));
    op!(v, "alsw::check_ascii_xn<V256> Base32Spec", 2 | WASM | NF, Alphabet(Base32Spec::alphabet), |s, x| alsw::check_ascii_xn(s, a256(x), Base32Spec::CHECK.x2()), |x, _| Out::flag(x.a[..32].iter().all(|&p| Base32Spec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V256> Base32Spec", 2 | WASM | NF, Alphabet(Base32Spec::alphabet), |s, x| alsw_decode(x, 32, alsw::decode_ascii_xn(s, a256(x), Base32Spec::CHECK.x2(), Base32Spec::DECODE.x2()), Base32Spec::value), |x, _| spec_text(32, x, Base32Spec::value));
    op!(v, "alsw::check_ascii_xn<V256> Base32HexSpec", 2 | WASM | NF, Alphabet(Base32HexSpec::alphabet), |s, x| alsw::check_ascii_xn(s, a256(x), Base32HexSpec::CHECK.x2()), |x, _| Out::flag(x.a[..32].iter().all(|&p| Base32HexSpec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V256> Base32HexSpec", 2 | WASM | NF, Alphabet(Base32HexSpec::alphabet), |s, x| alsw_decode(x, 32, alsw::decode_ascii_xn(s, a256(x), Base32HexSpec::CHECK.x2(), Base32HexSpec::DECODE.x2()), Base32HexSpec::value), |x, _| spec_text(32, x, Base32HexSpec::value));
    op!(v, "alsw::check_ascii_xn<V256> Base64Spec", 2 | WASM | NF, Alphabet(Base64Spec::alphabet), |s, x| alsw::check_ascii_xn(s, a256(x), Base64Spec::CHECK.x2()), |x, _| Out::flag(x.a[..32].iter().all(|&p| Base64Spec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V256> Base64Spec", 2 | WASM | NF, Alphabet(Base64Spec::alphabet), |s, x| alsw_decode(x, 32, alsw::decode_ascii_xn(s, a256(x), Base64Spec::CHECK.x2(), Base64Spec::DECODE.x2()), Base64Spec::value), |x, _| spec_text(32, x, Base64Spec::value));
    op!(v, "alsw::check_ascii_xn<V256> Base64UrlSpec", 2 | WASM | NF, Alphabet(Base64UrlSpec::alphabet), |s, x| alsw::check_ascii_xn(s, a256(x), Base64UrlSpec::CHECK.x2()), |x, _| Out::flag(x.a[..32].iter().all(|&p| Base64UrlSpec::value(p) != 0xFF)));
    op!(v, "alsw::decode_ascii_xn<V256> Base64UrlSpec", 2 | WASM | NF, Alphabet(Base64UrlSpec::alphabet), |s, x| alsw_decode(x, 32, alsw::decode_ascii_xn(s, a256(x), Base64UrlSpec::CHECK.x2(), Base64UrlSpec::DECODE.x2()), Base64UrlSpec::value), |x, _| spec_text(32, x, Base64UrlSpec::value));
    op!(v, "hex::encode_bytes16 UPPER", 2 | WASM | NF, Any, |s, x| hex::encode_bytes16(s, a128(x), hex::ENCODE_UPPER_LUT), |x, _| spec_hex(&x.a[..16], b"0123456789ABCDEF"));
    op!(v, "hex::encode_bytes32 UPPER", 2 | WASM | NF, Any, |s, x| hex::encode_bytes32(s, a256(x), hex::ENCODE_UPPER_LUT), |x, _| spec_hex(&x.a, b"0123456789ABCDEF"));
    op_sse2!(v, "hex::sse2::encode16 UPPER", Any, |s, x| hex::sse2::encode16(s, a128(x), hex::sse2::UPPER_OFFSET), |x, _| spec_hex(&x.a[..16], b"0123456789ABCDEF"));
    op!(v, "hex::encode_bytes16 LOWER", 2 | WASM | NF, Any, |s, x| hex::encode_bytes16(s, a128(x), hex::ENCODE_LOWER_LUT), |x, _| spec_hex(&x.a[..16], b"0123456789abcdef"));
    op!(v, "hex::encode_bytes32 LOWER", 2 | WASM | NF, Any, |s, x| hex::encode_bytes32(s, a256(x), hex::ENCODE_LOWER_LUT), |x, _| spec_hex(&x.a, b"0123456789abcdef"));
    op_sse2!(v, "hex::sse2::encode16 LOWER", Any, |s, x| hex::sse2::encode16(s, a128(x), hex::sse2::LOWER_OFFSET), |x, _| spec_hex(&x.a[..16], b"0123456789abcdef"));
    op!(v, "hex::decode_ascii16", 2 | WASM | NF, Hex, |s, x| hex::decode_ascii16(s, a128(x)), |x, _| spec_unhex(&x.a[..16]));
    op!(v, "hex::decode_ascii32", 2 | WASM | NF, Hex, |s, x| hex::decode_ascii32(s, a256(x)), |x, _| spec_unhex(&x.a));
    op!(v, "hex::decode_ascii32x2", 2 | WASM | NF, Hex2, |s, x| hex::decode_ascii32x2(s, (a256(x), b256(x))), |x, _| spec_unhex(&[x.a, x.b].concat()));
    op_sse2!(v, "hex::sse2::decode_nibbles", Hex, |s, x| nibbles(x, hex::sse2::decode_nibbles(s, a128(x))), |x, _| spec_nibbles(x));
    op_sse2!(v, "hex::sse2::merge_bits", Nibbles, |s, x| hex::sse2::merge_bits(s, a128(x)), |x, _| { let mut o = Out::of(8); for i in 0..8 { o.d[i] = x.a[2 * i] << 4 | x.a[2 * i + 1]; } o });
    op!(v, "mask::mask8x16_all", 1 | WASM | NF, Mask, |s, x| mask::mask8x16_all(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().all(|&p| p == 0xFF)));
    op!(v, "mask::mask8x16_any", 1 | WASM | NF, Mask, |s, x| mask::mask8x16_any(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().any(|&p| p == 0xFF)));
    op!(v, "mask::u8x16_highbit_all", 1 | WASM | NF, High, |s, x| mask::u8x16_highbit_all(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().all(|&p| p >= 0x80)));
    op!(v, "mask::u8x16_highbit_any", 1 | WASM | NF, High, |s, x| mask::u8x16_highbit_any(s, a128(x)), |x, _| Out::flag(x.a[..16].iter().any(|&p| p >= 0x80)));
    op!(v, "mask::mask8x32_all", 1 | WASM | NF, Mask, |s, x| mask::mask8x32_all(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().all(|&p| p == 0xFF)));
    op!(v, "mask::mask8x32_any", 1 | WASM | NF, Mask, |s, x| mask::mask8x32_any(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().any(|&p| p == 0xFF)));
    op!(v, "mask::u8x32_highbit_all", 1 | WASM | NF, High, |s, x| mask::u8x32_highbit_all(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().all(|&p| p >= 0x80)));
    op!(v, "mask::u8x32_highbit_any", 1 | WASM | NF, High, |s, x| mask::u8x32_highbit_any(s, a256(x)), |x, _| Out::flag(x.a[..32].iter().any(|&p| p >= 0x80)));
    op!(v, "simulation::u8x16_bitmask", 1 | WASM | NF, Any, |s, x| { let _ = s; vsimd::simulation::u8x16_bitmask(a128(x)) as u32 }, |x, _| Out::num(x.a[..16].iter().enumerate().fold(0u32, |m, (i, &p)| m | ((p >> 7) as u32) << i)));
    op!(v, "simulation::i16x8_packus", 1 | WASM | NF, Any, |s, x| { let _ = s; vsimd::simulation::i16x8_packus(a128(x), b128(x)) }, |x, _| packus(x));
    op_imm!(v, "simulation::u16x8_shl", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| { let _ = s; vsimd::simulation::u16x8_shl(a128(x), I as u8) }, |x, i| un::<u16>(16, &x.a, |p| p << i));
    op_imm!(v, "simulation::u16x8_shr", 1 | WASM | NF, Any, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], |s, x| { let _ = s; vsimd::simulation::u16x8_shr(a128(x), I as u8) }, |x, i| un::<u16>(16, &x.a, |p| p >> i));
    op!(v, "BSwap::swap_simd u16", 2 | WASM | NF, Any, |s, x| <u16 as bswap::BSwap>::swap_simd(s, a256(x)), |x, _| un::<u16>(32, &x.a, u16::swap_bytes));
    op!(v, "BSwap::swap_simd u32", 2 | WASM | NF, Any, |s, x| <u32 as bswap::BSwap>::swap_simd(s, a256(x)), |x, _| un::<u32>(32, &x.a, u32::swap_bytes));
    op!(v, "BSwap::swap_simd u64", 2 | WASM | NF, Any, |s, x| <u64 as bswap::BSwap>::swap_simd(s, a256(x)), |x, _| un::<u64>(32, &x.a, u64::swap_bytes));
    op!(v, "V128::to_v64x2", 1 | WASM | NF, Any, |s, x| { let _ = s; let (p, q) = a128(x).to_v64x2(); V64::pack2(p, q) }, |x, _| un::<u8>(16, &x.a, |p| p));
    op!(v, "V64::to_u64", 1 | WASM | NF, Any, |s, x| { let _ = s; a128(x).to_v64x2().1.to_u64().to_le_bytes() }, |x, _| { let mut o = Out::of(8); o.d[..8].copy_from_slice(&x.a[8..16]); o });
    op!(v, "V64::from_bytes", 1 | WASM | NF, Any, |s, x| { let _ = s; let mut e = [0u8; 8]; e.copy_from_slice(&x.a[..8]); V64::from_bytes(e) }, |x, _| un::<u8>(8, &x.a, |p| p));
    op!(v, "V128::x2", 1 | WASM | NF, Any, |s, x| { let _ = s; a128(x).x2() }, |x, _| cat(&x.a[..16], &x.a[..16]));
    op!(v, "V256::from_v128x2", 1 | WASM | NF, Any, |s, x| { let _ = s; V256::from_v128x2((a128(x), b128(x))) }, |x, _| cat(&x.a[..16], &x.b[..16]));
    op!(v, "V256::to_v128x2", 1 | WASM | NF, Any, |s, x| { let _ = s; a256(x).to_v128x2() }, |x, _| un::<u8>(32, &x.a, |p| p));
}

fn block_ops_1(v: &mut Vec<Op>) {
    op!(v, "V256::double_bytes", 1 | WASM | NF, Any, |s, x| { let _ = s; V256::double_bytes(*a128(x).as_bytes()) }, |x, _| cat(&x.a[..16], &x.a[..16]));
    op!(v, "V256::x2", 1 | WASM | NF, Any, |s, x| { let _ = s; a256(x).x2().to_v256x2() }, |x, _| cat(&x.a, &x.a));
    op!(v, "V512::from_v256x2", 1 | WASM | NF, Any, |s, x| { let _ = s; V512::from_v256x2((a256(x), b256(x))) }, |x, _| cat(&x.a, &x.b));
    op!(v, "V512::double_bytes", 1 | WASM | NF, Any, |s, x| { let _ = s; V512::double_bytes(x.a) }, |x, _| cat(&x.a, &x.a));
    op!(v, "V512::from_bytes", 1 | WASM | NF, Any, |s, x| { let _ = s; let mut e = [0u8; 64]; e[..32].copy_from_slice(&x.a); e[32..].copy_from_slice(&x.b); V512::from_bytes(e) }, |x, _| cat(&x.a, &x.b));
}

pub fn block_ops() -> Vec<Op> {
    let mut v = Vec::new();
    block_ops_0(&mut v);
    block_ops_1(&mut v);
    v
}

