"""Semantics of the LLVM/x86 intrinsics the stubs use (Intel SDM; trusted base)."""
from ir import Unsupported
from core import Agg
import aesmath as A

def call(ex, name, args, ins):
    d = ex.d
    if name.startswith('llvm.x86.aesni.'):
        from bdom import Wd, lut8
        op = name[len('llvm.x86.aesni.'):]
        def by(v): return [Wd(d, x, 8) for x in ex.chunks(v, 16, 8)]
        def un(bs): return ex.unchunks([b.v for b in bs], 8)
        s = by(args[0])
        if op in ('aesenc', 'aesenclast'):
            t = A.shift_rows([lut8(x, A.SBOX) for x in s])
            if op == 'aesenc': t = A.mix_columns(t)
            return ex.bin('xor', un(t), args[1], 128)
        if op in ('aesdec', 'aesdeclast'):
            t = [lut8(x, A.INV_SBOX) for x in A.inv_shift_rows(s)]
            if op == 'aesdec': t = A.inv_mix_columns(t)
            return ex.bin('xor', un(t), args[1], 128)
        if op == 'aesimc': return un(A.inv_mix_columns(s))
        if op == 'aeskeygenassist':
            rc = args[1]
            w1 = [lut8(x, A.SBOX) for x in s[4:8]]; w3 = [lut8(x, A.SBOX) for x in s[12:16]]
            rot = lambda w: [w[1] ^ rc, w[2], w[3], w[0]]
            return un(w1 + rot(w1) + w3 + rot(w3))
    if name == 'llvm.x86.pclmulqdq':
        imm = args[2]
        a = ex.chunks(args[0], 2, 64)[imm & 1]; b = ex.chunks(args[1], 2, 64)[(imm >> 4) & 1]
        return d.clmul(a, b, 64)
    if name.startswith('llvm.x86.sse2.pslli.d') or name.startswith('llvm.x86.sse2.psrli.d'):
        n = args[1]; op = 'shl' if 'pslli' in name else 'lshr'
        if n >= 32: return 0
        return ex.unchunks([ex.bin(op, x, n, 32) for x in ex.chunks(args[0], 4, 32)], 32)
    if name.startswith('llvm.ctpop') or name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
        w = ex.m.bits(ins.ty); v = args[0]
        if type(v) is int:
            if 'ctpop' in name: return bin(v).count('1')
            if 'ctlz' in name: return w - v.bit_length()
            return (v & -v).bit_length() - 1 if v else w
        return d.intrin(name, args, w)
    if name.startswith('llvm.umul.with.overflow') or name.startswith('llvm.uadd.with.overflow'):
        raise Unsupported(name)
    raise Unsupported('intrinsic ' + name)
