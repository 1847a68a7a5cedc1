"""A copy (by symlinks) of the standard library's sources for Miri on AArch64.

Miri lacks a handful of the NEON operations that vsimd uses. The copy gives these portable bodies, written from Arm's
definitions; everything else is the toolchain's own."""
import os
import re
import subprocess

F = "stdarch/crates/core_arch/src/"
FILES = [F + "arm_shared/neon/generated.rs", F + "aarch64/neon/generated.rs"]


def lanes(t, n, expr):
    return ("{ unsafe { let (x, y): ([%s; %d], [%s; %d]) = (transmute(a), transmute(b)); let mut z = [0 as %s; %d]; let mut i = 0; "
            "while i < %d { z[i] = %s; i += 1; } transmute(z) } }" % (t, n, t, n, t, n, n, expr))


BODIES = {
    "vmaxq_f32": lanes("f32", 4, "if x[i].is_nan() || y[i].is_nan() { f32::NAN } else if x[i] > y[i] { x[i] } else { y[i] }"),
    "vminq_f32": lanes("f32", 4, "if x[i].is_nan() || y[i].is_nan() { f32::NAN } else if x[i] < y[i] { x[i] } else { y[i] }"),
    "vpmax_u32": lanes("u32", 2, "{ let p = if i < 1 { [x[0], x[1]] } else { [y[0], y[1]] }; if p[0] > p[1] { p[0] } else { p[1] } }"),
    "vpmin_u8": lanes("u8", 8, "{ let (p, q) = if i < 4 { (x[2 * i], x[2 * i + 1]) } else { (y[2 * i - 8], y[2 * i - 7]) }; if p < q { p } else { q } }"),
    "vrhaddq_u8": lanes("u8", 16, "((x[i] as u16 + y[i] as u16 + 1) >> 1) as u8"),
    "vst1q_s8_x2": "{ unsafe { crate::ptr::write_unaligned(a.cast::<int8x16x2_t>(), b) } }",
}


def make(src, out):
    """True if every operation was found."""
    subprocess.run(["cp", "-rs", src, out], check=True)
    left = set(BODIES)

    def sub(m):
        if m.group(2) in BODIES and "aarch64" in m.group(0):
            left.discard(m.group(2))
            return m.group(1) + BODIES[m.group(2)] + "\n"
        return m.group(0)

    for f in FILES:
        with open(os.path.join(src, f)) as h:
            t = h.read()
        t = re.sub(r"(^pub (?:unsafe )?fn (\w+)\([^{]*?)\{\n.*?\n\}\n", sub, t, flags=re.M | re.S)
        os.remove(os.path.join(out, f))
        with open(os.path.join(out, f), "w") as h:
            h.write(t)
    return not left
