import java.math.BigInteger;
import java.util.ArrayList;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Evaluation of the operators of module Prim. Numbers, field elements and
 * strings are sequences of bytes; numbers are little-endian. Each operator also
 * has a plain TLA+ definition (PrimDef), with which model SelfTest compares
 * these methods.
 */
public class Prim {
    static final StringValue MOD = new StringValue("mod");
    static final StringValue SIZE = new StringValue("size");

    static final class Fld {
        RecordValue key;
        BigInteger m;
        int size;
    }

    static final ThreadLocal<Fld> LAST = new ThreadLocal<>();

    static Fld fld(final Value f) {
        Fld l = LAST.get();
        if (l != null && l.key == f) {
            return l;
        }
        final RecordValue r = (RecordValue) f.toRcd();
        l = new Fld();
        l.m = big(r.select(MOD));
        l.size = ((IntValue) r.select(SIZE)).val;
        if (f instanceof RecordValue) {
            l.key = (RecordValue) f;
            LAST.set(l);
        }
        return l;
    }

    static Value[] elems(final Value v) {
        final Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("not a sequence: " + v);
        }
        return ((TupleValue) t).elems;
    }

    static byte[] bytes(final Value v) {
        final Value[] e = elems(v);
        final byte[] b = new byte[e.length];
        for (int i = 0; i < b.length; i++) {
            b[i] = (byte) ((IntValue) e[i]).val;
        }
        return b;
    }

    static BigInteger big(final Value v) {
        final Value[] e = elems(v);
        final int n = e.length;
        final byte[] b = new byte[n];
        for (int i = 0; i < n; i++) {
            b[n - 1 - i] = (byte) ((IntValue) e[i]).val;
        }
        return new BigInteger(1, b);
    }

    static BigInteger[] bigs(final Value v) {
        final Value[] e = elems(v);
        final BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) {
            r[i] = big(e[i]);
        }
        return r;
    }

    static Value seq(final BigInteger x, final int size) {
        final byte[] b = x.toByteArray();
        final Value[] e = new Value[size];
        for (int i = 0; i < size; i++) {
            final int k = b.length - 1 - i;
            e[i] = IntValue.gen(k >= 0 ? b[k] & 255 : 0);
        }
        return new TupleValue(e);
    }

    static Value norm(final BigInteger x) {
        return seq(x, (x.bitLength() + 7) / 8);
    }

    static Value bseq(final byte[] b) {
        final Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) {
            e[i] = IntValue.gen(b[i] & 255);
        }
        return new TupleValue(e);
    }

    static Value vec(final BigInteger[] x, final int size) {
        final Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) {
            e[i] = seq(x[i], size);
        }
        return new TupleValue(e);
    }

    static Value bool(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    // Natural numbers.

    public static Value BNorm(final Value x) {
        return norm(big(x));
    }

    public static Value BAdd(final Value x, final Value y) {
        return norm(big(x).add(big(y)));
    }

    public static Value BSub(final Value x, final Value y) {
        return norm(big(x).subtract(big(y)).max(BigInteger.ZERO));
    }

    public static Value BMul(final Value x, final Value y) {
        return norm(big(x).multiply(big(y)));
    }

    public static Value BMod(final Value x, final Value y) {
        return norm(big(x).mod(big(y)));
    }

    public static Value BLess(final Value x, final Value y) {
        return bool(big(x).compareTo(big(y)) < 0);
    }

    public static Value BBits(final Value x) {
        return IntValue.gen(big(x).bitLength());
    }

    public static Value BBit(final Value x, final Value i) {
        return IntValue.gen(big(x).testBit(((IntValue) i).val) ? 1 : 0);
    }

    public static Value BPad(final Value x, final Value n) {
        return seq(big(x), ((IntValue) n).val);
    }

    // Fields.

    public static Value FAdd(final Value f, final Value x, final Value y) {
        final Fld d = fld(f);
        return seq(big(x).add(big(y)).mod(d.m), d.size);
    }

    public static Value FSub(final Value f, final Value x, final Value y) {
        final Fld d = fld(f);
        return seq(big(x).subtract(big(y)).mod(d.m), d.size);
    }

    public static Value FNeg(final Value f, final Value x) {
        final Fld d = fld(f);
        return seq(big(x).negate().mod(d.m), d.size);
    }

    public static Value FMul(final Value f, final Value x, final Value y) {
        final Fld d = fld(f);
        return seq(big(x).multiply(big(y)).mod(d.m), d.size);
    }

    public static Value FInv(final Value f, final Value x) {
        final Fld d = fld(f);
        return seq(big(x).modPow(d.m.subtract(BigInteger.TWO), d.m), d.size);
    }

    public static Value FPow(final Value f, final Value x, final Value e) {
        final Fld d = fld(f);
        return seq(big(x).modPow(big(e), d.m), d.size);
    }

    public static Value FOfNat(final Value f, final Value n) {
        final Fld d = fld(f);
        return seq(big(n).mod(d.m), d.size);
    }

    public static Value FSample(final Value f, final Value b) {
        final Fld d = fld(f);
        final byte[] s = bytes(b);
        final BigInteger mask =
            BigInteger.ONE.shiftLeft(d.m.subtract(BigInteger.ONE).bitLength()).subtract(BigInteger.ONE);
        final ArrayList<Value> out = new ArrayList<>();
        for (int i = 0; i + d.size <= s.length; i += d.size) {
            final byte[] c = new byte[d.size];
            for (int j = 0; j < d.size; j++) {
                c[d.size - 1 - j] = s[i + j];
            }
            final BigInteger x = new BigInteger(1, c).and(mask);
            if (x.compareTo(d.m) < 0) {
                out.add(seq(x, d.size));
            }
        }
        return new TupleValue(out.toArray(new Value[0]));
    }

    // Vectors.

    public static Value VAdd(final Value f, final Value u, final Value v) {
        final Fld d = fld(f);
        final BigInteger[] a = bigs(u);
        final BigInteger[] b = bigs(v);
        for (int i = 0; i < a.length; i++) {
            a[i] = a[i].add(b[i]).mod(d.m);
        }
        return vec(a, d.size);
    }

    public static Value VSub(final Value f, final Value u, final Value v) {
        final Fld d = fld(f);
        final BigInteger[] a = bigs(u);
        final BigInteger[] b = bigs(v);
        for (int i = 0; i < a.length; i++) {
            a[i] = a[i].subtract(b[i]).mod(d.m);
        }
        return vec(a, d.size);
    }

    public static Value VScale(final Value f, final Value c, final Value v) {
        final Fld d = fld(f);
        final BigInteger k = big(c);
        final BigInteger[] a = bigs(v);
        for (int i = 0; i < a.length; i++) {
            a[i] = a[i].multiply(k).mod(d.m);
        }
        return vec(a, d.size);
    }

    public static Value VDot(final Value f, final Value u, final Value v) {
        final Fld d = fld(f);
        final BigInteger[] a = bigs(u);
        final BigInteger[] b = bigs(v);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) {
            s = s.add(a[i].multiply(b[i]));
        }
        return seq(s.mod(d.m), d.size);
    }

    public static Value VSum(final Value f, final Value u) {
        final Fld d = fld(f);
        BigInteger s = BigInteger.ZERO;
        for (final BigInteger x : bigs(u)) {
            s = s.add(x);
        }
        return seq(s.mod(d.m), d.size);
    }

    public static Value VPowers(final Value f, final Value x, final Value n) {
        final Fld d = fld(f);
        final BigInteger b = big(x);
        final BigInteger[] r = new BigInteger[((IntValue) n).val];
        BigInteger c = BigInteger.ONE.mod(d.m);
        for (int i = 0; i < r.length; i++) {
            r[i] = c;
            c = c.multiply(b).mod(d.m);
        }
        return vec(r, d.size);
    }

    public static Value VAt(final Value f, final Value coeffs, final Value x) {
        final Fld d = fld(f);
        final BigInteger[] c = bigs(coeffs);
        final BigInteger b = big(x);
        BigInteger r = BigInteger.ZERO;
        for (int i = c.length - 1; i >= 0; i--) {
            r = r.multiply(b).add(c[i]).mod(d.m);
        }
        return seq(r, d.size);
    }

    public static Value VInterp(final Value f, final Value xs, final Value ys, final Value x) {
        final Fld d = fld(f);
        final BigInteger[] a = bigs(xs);
        final BigInteger[] y = bigs(ys);
        final BigInteger b = big(x);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) {
            BigInteger num = y[i];
            BigInteger den = BigInteger.ONE;
            for (int j = 0; j < a.length; j++) {
                if (j != i) {
                    num = num.multiply(b.subtract(a[j])).mod(d.m);
                    den = den.multiply(a[i].subtract(a[j])).mod(d.m);
                }
            }
            s = s.add(num.multiply(den.modInverse(d.m))).mod(d.m);
        }
        return seq(s, d.size);
    }

    // Byte strings.

    public static Value Cat(final Value parts) {
        final ArrayList<Value> out = new ArrayList<>();
        for (final Value p : elems(parts)) {
            for (final Value b : elems(p)) {
                out.add(b);
            }
        }
        return new TupleValue(out.toArray(new Value[0]));
    }

    public static Value Chunks(final Value b, final Value n) {
        final Value[] e = elems(b);
        final int k = ((IntValue) n).val;
        final Value[] out = new Value[e.length / k];
        for (int i = 0; i < out.length; i++) {
            out[i] = new TupleValue(java.util.Arrays.copyOfRange(e, i * k, (i + 1) * k));
        }
        return new TupleValue(out);
    }

    public static Value XorB(final Value x, final Value y) {
        final byte[] a = bytes(x);
        final byte[] b = bytes(y);
        for (int i = 0; i < a.length; i++) {
            a[i] ^= b[i];
        }
        return bseq(a);
    }

    // Primitives.

    public static Value Aes128(final Value key, final Value block) throws Exception {
        final Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(key), "AES"));
        return bseq(c.doFinal(bytes(block)));
    }

    static final long[] RC = {
        0x000000008000808bL, 0x800000000000008bL, 0x8000000000008089L, 0x8000000000008003L,
        0x8000000000008002L, 0x8000000000000080L, 0x000000000000800aL, 0x800000008000000aL,
        0x8000000080008081L, 0x8000000000008080L, 0x0000000080000001L, 0x8000000080008008L};
    static final int[] ROT = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
    static final int[] PI = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};

    static void keccakP(final long[] s) {
        final long[] c = new long[5];
        for (int r = 0; r < 12; r++) {
            for (int x = 0; x < 5; x++) {
                c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
            }
            for (int x = 0; x < 5; x++) {
                final long t = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                for (int y = 0; y < 25; y += 5) {
                    s[x + y] ^= t;
                }
            }
            long t = s[1];
            for (int i = 0; i < 24; i++) {
                final long u = s[PI[i]];
                s[PI[i]] = Long.rotateLeft(t, ROT[i]);
                t = u;
            }
            for (int y = 0; y < 25; y += 5) {
                for (int x = 0; x < 5; x++) {
                    c[x] = s[y + x];
                }
                for (int x = 0; x < 5; x++) {
                    s[y + x] = c[x] ^ (~c[(x + 1) % 5] & c[(x + 2) % 5]);
                }
            }
            s[0] ^= RC[r];
        }
    }

    public static Value TurboShake128(final Value msg, final Value dom, final Value len) {
        final byte[] m = bytes(msg);
        final int rate = 168;
        final int blocks = m.length / rate + 1;
        final byte[] p = new byte[blocks * rate];
        System.arraycopy(m, 0, p, 0, m.length);
        p[m.length] ^= (byte) ((IntValue) dom).val;
        p[p.length - 1] ^= (byte) 0x80;
        final long[] s = new long[25];
        for (int b = 0; b < blocks; b++) {
            for (int i = 0; i < rate; i++) {
                s[i / 8] ^= (p[b * rate + i] & 255L) << (8 * (i % 8));
            }
            keccakP(s);
        }
        final byte[] out = new byte[((IntValue) len).val];
        for (int i = 0; i < out.length; i++) {
            if (i > 0 && i % rate == 0) {
                keccakP(s);
            }
            final int k = i % rate;
            out[i] = (byte) (s[k / 8] >>> (8 * (k % 8)));
        }
        return bseq(out);
    }
}
