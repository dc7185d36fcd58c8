// AES-128 decryption, straight from FIPS 197
fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a } a = xt(a); b >>= 1 } r }
fn sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    for i in 0..256usize {
        let mut inv = 0u8;
        if i != 0 { for j in 1..=255u8 { if mul(i as u8, j) == 1 { inv = j; break } } }
        let mut x = inv; let mut r = inv;
        for _ in 0..4 { x = x.rotate_left(1); r ^= x }
        s[i] = r ^ 0x63;
    }
    s
}
pub fn cbc_decrypt(key: &[u8; 16], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let s = sbox();
    let mut inv = [0u8; 256];
    for i in 0..256 { inv[s[i] as usize] = i as u8 }
    let mut w = [[0u8; 4]; 44];
    for i in 0..4 { w[i].copy_from_slice(&key[4 * i..4 * i + 4]) }
    let mut rc = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 { t.rotate_left(1); for b in &mut t { *b = s[*b as usize] } t[0] ^= rc; rc = xt(rc) }
        for k in 0..4 { w[i][k] = w[i - 4][k] ^ t[k] }
    }
    let mut m = [[0u8; 256]; 4];
    for (k, c) in [14u8, 11, 13, 9].iter().enumerate() { for i in 0..256 { m[k][i] = mul(i as u8, *c) } }
    let mut out = Vec::new();
    let mut prev = *iv;
    for ch in data.chunks(16) {
        let mut st = [0u8; 16];
        st.copy_from_slice(ch);
        let add = |st: &mut [u8; 16], r: usize| for i in 0..16 { st[i] ^= w[4 * r + i / 4][i % 4] };
        add(&mut st, 10);
        for r in (0..10).rev() {
            let o = st;
            for c in 0..4 { for row in 0..4 { st[4 * ((c + row) % 4) + row] = inv[o[4 * c + row] as usize] } }
            add(&mut st, r);
            if r > 0 {
                for c in 0..4 {
                    let a = [st[4 * c], st[4 * c + 1], st[4 * c + 2], st[4 * c + 3]];
                    for k in 0..4 {
                        st[4 * c + k] = m[0][a[k] as usize] ^ m[1][a[(k + 1) % 4] as usize] ^ m[2][a[(k + 2) % 4] as usize] ^ m[3][a[(k + 3) % 4] as usize];
                    }
                }
            }
        }
        for i in 0..16 { st[i] ^= prev[i] }
        prev.copy_from_slice(ch);
        out.extend_from_slice(&st);
    }
    out
}
