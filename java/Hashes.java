import java.security.MessageDigest;
import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/** TLC overrides for spec/Hashes.tla: byte strings are hex strings. */
public class Hashes {
    public static Value Sha256(Value h) { return md("SHA-256", h); }
    public static Value Md5(Value h) { return md("MD5", h); }
    static Value md(String a, Value h) {
        try {
            return new StringValue(BigNum.hex(MessageDigest.getInstance(a).digest(BigNum.bytes(h))));
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value Blake3(Value h) { return new StringValue(BigNum.hex(blake3(BigNum.bytes(h)))); }

    // ---- BLAKE3 (hash mode, 32-byte output), after the BLAKE3 paper ----
    static final int[] IV = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
    static final int[] PERM = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
    static final int START = 1, END = 2, PARENT = 4, ROOT = 8;

    static void g(int[] v, int a, int b, int c, int d, int x, int y) {
        v[a] = v[a] + v[b] + x; v[d] = Integer.rotateRight(v[d] ^ v[a], 16);
        v[c] = v[c] + v[d];     v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
        v[a] = v[a] + v[b] + y; v[d] = Integer.rotateRight(v[d] ^ v[a], 8);
        v[c] = v[c] + v[d];     v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
    }
    static int[] compress(int[] cv, int[] block, long t, int len, int flags) {
        int[] v = {cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3],
                (int) t, (int) (t >>> 32), len, flags};
        int[] m = block.clone();
        for (int r = 0; r < 7; r++) {
            g(v, 0, 4, 8, 12, m[0], m[1]); g(v, 1, 5, 9, 13, m[2], m[3]);
            g(v, 2, 6, 10, 14, m[4], m[5]); g(v, 3, 7, 11, 15, m[6], m[7]);
            g(v, 0, 5, 10, 15, m[8], m[9]); g(v, 1, 6, 11, 12, m[10], m[11]);
            g(v, 2, 7, 8, 13, m[12], m[13]); g(v, 3, 4, 9, 14, m[14], m[15]);
            int[] p = new int[16];
            for (int i = 0; i < 16; i++) p[i] = m[PERM[i]];
            m = p;
        }
        int[] o = new int[8];
        for (int i = 0; i < 8; i++) o[i] = v[i] ^ v[i + 8];
        return o;
    }
    static int[] words(byte[] in, int off, int n) {
        int[] w = new int[16];
        for (int i = 0; i < n; i++) w[i / 4] |= (in[off + i] & 255) << (8 * (i % 4));
        return w;
    }
    static int[] chunk(byte[] in, int off, int len, long ctr, boolean root) {
        int[] cv = IV;
        int blocks = Math.max(1, (len + 63) / 64);
        for (int b = 0; b < blocks; b++) {
            int l = Math.min(64, len - 64 * b);
            int f = (b == 0 ? START : 0) | (b == blocks - 1 ? END | (root ? ROOT : 0) : 0);
            cv = compress(cv, words(in, off + 64 * b, l), ctr, l, f);
        }
        return cv;
    }
    static int[] tree(byte[] in, int off, int len, long ctr, boolean root) {
        if (len <= 1024) return chunk(in, off, len, ctr, root);
        int left = 1024;
        while (left * 2 < len) left *= 2;
        int[] a = tree(in, off, left, ctr, false), b = tree(in, off + left, len - left, ctr + left / 1024, false);
        int[] m = new int[16];
        System.arraycopy(a, 0, m, 0, 8);
        System.arraycopy(b, 0, m, 8, 8);
        return compress(IV, m, 0, 64, PARENT | (root ? ROOT : 0));
    }
    static byte[] blake3(byte[] in) {
        int[] o = tree(in, 0, in.length, 0, true);
        byte[] r = new byte[32];
        for (int i = 0; i < 32; i++) r[i] = (byte) (o[i / 4] >>> (8 * (i % 4)));
        return r;
    }
}
