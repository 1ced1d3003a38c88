package tlc2.overrides;

import java.io.BufferedWriter;
import java.io.FileOutputStream;
import java.io.IOException;
import java.io.OutputStreamWriter;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicLong;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluation of the operators declared in Z.tla (unbounded integers written as decimal strings). */
public class ZOverrides implements ITLCOverrides {

    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { ZOverrides.class };
    }

    private static String s(Value v) {
        if (v instanceof StringValue) {
            return ((StringValue) v).val.toString();
        }
        if (v instanceof IntValue) {
            return Integer.toString(((IntValue) v).val);
        }
        throw new IllegalArgumentException("Z: not a string or integer: " + v);
    }

    private static BigInteger z(Value v) {
        if (v instanceof IntValue) {
            return BigInteger.valueOf(((IntValue) v).val);
        }
        return new BigInteger(s(v));
    }

    private static int i(Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        return z(v).intValueExact();
    }

    private static Value r(BigInteger b) {
        return new StringValue(b.toString());
    }

    private static BigInteger floorDiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        if (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) {
            return qr[0].subtract(BigInteger.ONE);
        }
        return qr[0];
    }

    @TLAPlusOperator(identifier = "ZI", module = "Z", warn = false)
    public static Value zi(final Value a) { return r(z(a)); }

    @TLAPlusOperator(identifier = "ZInt", module = "Z", warn = false)
    public static Value zint(final Value a) { return IntValue.gen(z(a).intValueExact()); }

    @TLAPlusOperator(identifier = "ZAdd", module = "Z", warn = false)
    public static Value add(final Value a, final Value b) { return r(z(a).add(z(b))); }

    @TLAPlusOperator(identifier = "ZSub", module = "Z", warn = false)
    public static Value sub(final Value a, final Value b) { return r(z(a).subtract(z(b))); }

    @TLAPlusOperator(identifier = "ZMul", module = "Z", warn = false)
    public static Value mul(final Value a, final Value b) { return r(z(a).multiply(z(b))); }

    @TLAPlusOperator(identifier = "ZDiv", module = "Z", warn = false)
    public static Value div(final Value a, final Value b) { return r(floorDiv(z(a), z(b))); }

    @TLAPlusOperator(identifier = "ZMod", module = "Z", warn = false)
    public static Value mod(final Value a, final Value b) { return r(z(a).mod(z(b))); }

    @TLAPlusOperator(identifier = "ZModInt", module = "Z", warn = false)
    public static Value modint(final Value a, final Value b) { return IntValue.gen(z(a).mod(z(b)).intValueExact()); }

    /** Nearest integer to a/b, ties away from zero. */
    @TLAPlusOperator(identifier = "ZDivR", module = "Z", warn = false)
    public static Value divr(final Value a, final Value b) {
        BigInteger x = z(a), y = z(b);
        int sg = x.signum() * y.signum();
        x = x.abs(); y = y.abs();
        BigInteger q = x.shiftLeft(1).add(y).divide(y.shiftLeft(1));
        return r(sg < 0 ? q.negate() : q);
    }

    @TLAPlusOperator(identifier = "ZNeg", module = "Z", warn = false)
    public static Value neg(final Value a) { return r(z(a).negate()); }

    @TLAPlusOperator(identifier = "ZAbs", module = "Z", warn = false)
    public static Value abs(final Value a) { return r(z(a).abs()); }

    @TLAPlusOperator(identifier = "ZCmp", module = "Z", warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(z(a).compareTo(z(b))); }

    @TLAPlusOperator(identifier = "ZPow", module = "Z", warn = false)
    public static Value pow(final Value a, final Value n) { return r(z(a).pow(i(n))); }

    /** floor(a * 2^n), n of either sign. */
    @TLAPlusOperator(identifier = "ZShl", module = "Z", warn = false)
    public static Value shl(final Value a, final Value n) { return r(z(a).shiftLeft(i(n))); }

    @TLAPlusOperator(identifier = "ZSqrt", module = "Z", warn = false)
    public static Value sqrt(final Value a) { return r(z(a).sqrt()); }

    @TLAPlusOperator(identifier = "ZBits", module = "Z", warn = false)
    public static Value bits(final Value a) { return IntValue.gen(z(a).abs().bitLength()); }

    @TLAPlusOperator(identifier = "ZDigits", module = "Z", warn = false)
    public static Value digits(final Value a) { return IntValue.gen(z(a).abs().toString().length()); }

    @TLAPlusOperator(identifier = "ZAnd", module = "Z", warn = false)
    public static Value and(final Value a, final Value b) { return r(z(a).and(z(b))); }

    @TLAPlusOperator(identifier = "ZOr", module = "Z", warn = false)
    public static Value or(final Value a, final Value b) { return r(z(a).or(z(b))); }

    @TLAPlusOperator(identifier = "ZXor", module = "Z", warn = false)
    public static Value xor(final Value a, final Value b) { return r(z(a).xor(z(b))); }

    /**
     * The number a literal denotes: m and e such that its value is m * 10^-e. Digit separators and type
     * suffixes are dropped. 0x, 0o and 0b integers are read too. "bad" when the text is no number.
     */
    @TLAPlusOperator(identifier = "ZDec", module = "Z", warn = false)
    public static Value dec(final Value v) {
        String t = s(v).trim().replace("_", "");
        boolean neg = false;
        if (t.startsWith("-")) {
            neg = true;
            t = t.substring(1).trim();
        } else if (t.startsWith("+")) {
            t = t.substring(1);
        }
        try {
            BigInteger m;
            int e = 0;
            String[] isuf = { "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize" };
            if (t.startsWith("0x") || t.startsWith("0o") || t.startsWith("0b")) {
                for (String x : isuf) {
                    if (t.endsWith(x)) { t = t.substring(0, t.length() - x.length()); break; }
                }
                m = new BigInteger(t.substring(2), t.charAt(1) == 'x' ? 16 : t.charAt(1) == 'o' ? 8 : 2);
            } else {
                for (String x : isuf) {
                    if (t.endsWith(x)) { t = t.substring(0, t.length() - x.length()); break; }
                }
                if (t.endsWith("f32") || t.endsWith("f64")) {
                    t = t.substring(0, t.length() - 3);
                }
                int p = Math.max(t.indexOf('e'), t.indexOf('E'));
                if (p >= 0) {
                    String ex = t.substring(p + 1);
                    if (ex.startsWith("+")) { ex = ex.substring(1); }
                    e = -Integer.parseInt(ex);
                    t = t.substring(0, p);
                }
                int d = t.indexOf('.');
                if (d >= 0) {
                    e += t.length() - d - 1;
                    t = t.substring(0, d) + t.substring(d + 1);
                }
                for (int k = 0; k < t.length(); k++) {
                    if (t.charAt(k) < '0' || t.charAt(k) > '9') { return bad(); }
                }
                m = new BigInteger(t);
            }
            if (Math.abs(e) > 20000) { return bad(); }
            if (e < 0) { m = m.multiply(BigInteger.TEN.pow(-e)); e = 0; }
            return new TupleValue(new Value[] { r(neg ? m.negate() : m), IntValue.gen(e) });
        } catch (RuntimeException ex) {
            return bad();
        }
    }

    private static Value bad() {
        return new TupleValue(new Value[] { new StringValue("bad"), IntValue.gen(0) });
    }

    /** The decimal text of m * 10^-e, with exactly e decimal places. */
    @TLAPlusOperator(identifier = "ZShow", module = "Z", warn = false)
    public static Value show(final Value m, final Value e) {
        BigInteger x = z(m);
        int n = i(e);
        String t = x.abs().toString();
        if (n > 0) {
            while (t.length() <= n) { t = "0" + t; }
            t = t.substring(0, t.length() - n) + "." + t.substring(t.length() - n);
        }
        return new StringValue((x.signum() < 0 ? "-" : "") + t);
    }

    /** The text of an integer in base 16 (lower case, no prefix). */
    @TLAPlusOperator(identifier = "ZHex", module = "Z", warn = false)
    public static Value hex(final Value a) { return new StringValue(z(a).toString(16)); }

    private static long mix(long x) {
        x += 0x9E3779B97F4A7C15L;
        x = (x ^ (x >>> 30)) * 0xBF58476D1CE4E5B9L;
        x = (x ^ (x >>> 27)) * 0x94D049BB133111EBL;
        return x ^ (x >>> 31);
    }

    /** A fixed pseudo-random function of two integers, with values in 0 .. 2^31-1. */
    @TLAPlusOperator(identifier = "ZMix", module = "Z", warn = false)
    public static Value zmix(final Value h, final Value k) {
        return IntValue.gen((int) (mix(mix(i(h)) ^ (0x100000001B3L * i(k))) >>> 33));
    }

    /** A fixed pseudo-random non-negative integer of n bits from h. */
    @TLAPlusOperator(identifier = "ZRandBits", module = "Z", warn = false)
    public static Value zrandbits(final Value h, final Value n) {
        int bits = i(n);
        BigInteger b = BigInteger.ZERO;
        long st = mix(i(h));
        for (int k = 0; k < bits; k += 32) {
            st = mix(st + k);
            b = b.shiftLeft(32).or(BigInteger.valueOf(st >>> 32));
        }
        return r(b.mod(BigInteger.ONE.shiftLeft(bits)));
    }

    /** A fixed hash of a text, in 0 .. n-1. */
    @TLAPlusOperator(identifier = "ZHash", module = "Z", warn = false)
    public static Value zhash(final Value a, final Value n) {
        String t = s(a);
        long h = 1469598103934665603L;
        for (int k = 0; k < t.length(); k++) {
            h = mix((h ^ t.charAt(k)) * 1099511628211L);
        }
        return IntValue.gen((int) ((h >>> 2) % i(n)));
    }

    /** Does the text contain the other text? */
    @TLAPlusOperator(identifier = "ZContains", module = "Z", warn = false)
    public static Value contains(final Value a, final Value b) {
        return s(a).contains(s(b)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static final Map<String, BufferedWriter> OUT = new ConcurrentHashMap<>();
    private static final Map<String, AtomicLong> COUNT = new ConcurrentHashMap<>();

    static {
        Runtime.getRuntime().addShutdownHook(new Thread(() -> {
            for (BufferedWriter w : OUT.values()) {
                try { synchronized (w) { w.close(); } } catch (IOException e) { /* reported by the reader */ }
            }
            String f = System.getProperty("z.counters");
            if (f != null) {
                try (BufferedWriter w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f), StandardCharsets.UTF_8))) {
                    for (Map.Entry<String, AtomicLong> e : new TreeMap<>(COUNT).entrySet()) {
                        w.write(e.getKey() + "\t" + e.getValue().get() + "\n");
                    }
                } catch (IOException e) { /* reported by the reader */ }
            }
        }));
    }

    /** Append a line to a file (truncated at its first use in this process). */
    @TLAPlusOperator(identifier = "ZEmit", module = "Z", warn = false)
    public static Value emit(final Value file, final Value line) throws IOException {
        BufferedWriter w = OUT.computeIfAbsent(s(file), f -> {
            try {
                return new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f), StandardCharsets.UTF_8));
            } catch (IOException e) {
                throw new RuntimeException(e);
            }
        });
        String t = s(line);
        synchronized (w) { w.write(t); w.write('\n'); }
        return BoolValue.ValTrue;
    }

    /** Add one to a named counter; the counters are written when the process ends. */
    @TLAPlusOperator(identifier = "ZCount", module = "Z", warn = false)
    public static Value count(final Value key) {
        COUNT.computeIfAbsent(s(key), k -> new AtomicLong()).incrementAndGet();
        return BoolValue.ValTrue;
    }

    private static final BigInteger MINUS = BigInteger.ONE.negate();

    /** RealFn!FactDef, as a loop. */
    @TLAPlusOperator(identifier = "Fact", module = "RealFn", warn = false)
    public static Value fact(final Value t0, final Value y0, final Value k0, final Value acc0, final Value w0, final Value step0) {
        BigInteger t = z(t0), y = z(y0), acc = z(acc0);
        int w = i(w0), step = i(step0);
        long k = i(k0);
        while (t.signum() != 0 && !t.equals(MINUS)) {
            t = floorDiv(t.multiply(y).shiftRight(w), BigInteger.valueOf(step == 1 ? k : k * (k + 1)));
            acc = acc.add(t);
            k += step;
        }
        return r(acc);
    }

    /** RealFn!OddsDef, as a loop. */
    @TLAPlusOperator(identifier = "Odds", module = "RealFn", warn = false)
    public static Value odds(final Value t0, final Value y0, final Value k0, final Value acc0, final Value w0, final Value sg0) {
        BigInteger t = z(t0), y = z(y0), acc = z(acc0);
        int w = i(w0), sg = i(sg0);
        long k = i(k0);
        while (t.signum() != 0 && !t.equals(MINUS)) {
            t = t.multiply(y).shiftRight(w);
            if (sg < 0) { t = t.negate(); }
            acc = acc.add(floorDiv(t, BigInteger.valueOf(k)));
            k += 2;
        }
        return r(acc);
    }

    /** RealFn!SquaresDef, as a loop. */
    @TLAPlusOperator(identifier = "Squares", module = "RealFn", warn = false)
    public static Value squares(final Value a0, final Value n0, final Value w0) {
        BigInteger a = z(a0);
        for (int n = i(n0), w = i(w0); n > 0; n--) { a = a.multiply(a).shiftRight(w); }
        return r(a);
    }

    /** RealFn!ErfSumDef, as a loop. */
    @TLAPlusOperator(identifier = "ErfSum", module = "RealFn", warn = false)
    public static Value erfsum(final Value t0, final Value y0, final Value k0, final Value acc0, final Value w0) {
        BigInteger t = z(t0), y = z(y0), acc = z(acc0);
        int w = i(w0);
        long k = i(k0);
        while (t.signum() != 0) {
            t = floorDiv(t.multiply(y).shiftRight(w), BigInteger.valueOf(k));
            acc = acc.add(t);
            k += 2;
        }
        return r(acc);
    }
}
