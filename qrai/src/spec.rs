//! ISO/IEC 18004 reference facts, written independently of the analysed crate.
pub const ECC_PER_BLOCK: [[u8; 40]; 4] = [
    // L
    [7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    // M
    [10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28],
    // Q
    [13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    // H
    [17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
];
pub const BLOCKS: [[u8; 40]; 4] = [
    [1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25],
    [1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49],
    [1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68],
    [1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81],
];
/// two-bit level indicator -> row of the tables above (00=M, 01=L, 10=H, 11=Q)
pub const LEVEL_ROW: [usize; 4] = [1, 0, 3, 2];

pub fn size(v: usize) -> usize {
    4 * v + 17
}

pub fn align_centres(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut r = vec![6];
    let mut p: Vec<usize> = vec![];
    let mut pos = size(v) - 7;
    for _ in 0..n - 1 {
        p.push(pos);
        pos = pos.wrapping_sub(step);
    }
    p.reverse();
    r.extend(p);
    r
}

pub fn is_function(v: usize, y: usize, x: usize) -> bool {
    let n = size(v);
    // finders, separators, format information, dark module
    if y < 9 && x < 9 || y < 9 && x >= n - 8 || y >= n - 8 && x < 9 {
        return true;
    }
    if y == 6 || x == 6 {
        return true;
    }
    if v >= 7 && (y < 6 && x >= n - 11 || x < 6 && y >= n - 11) {
        return true;
    }
    let c = align_centres(v);
    let k = c.len();
    for (i, &cy) in c.iter().enumerate() {
        for (j, &cx) in c.iter().enumerate() {
            if i == 0 && j == 0 || i == 0 && j + 1 == k || i + 1 == k && j == 0 {
                continue;
            }
            if y.abs_diff(cy) <= 2 && x.abs_diff(cx) <= 2 {
                return true;
            }
        }
    }
    false
}

/// data modules in placement order
pub fn zigzag(v: usize) -> Vec<(usize, usize)> {
    let n = size(v) as i64;
    let mut r = vec![];
    let mut right = n - 1;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for vert in 0..n {
            for j in 0..2 {
                let x = right - j;
                let up = (right + 1) & 2 == 0;
                let y = if up { n - 1 - vert } else { vert };
                if !is_function(v, y as usize, x as usize) {
                    r.push((y as usize, x as usize));
                }
            }
        }
        right -= 2;
    }
    r
}

pub fn mask(m: u64, y: usize, x: usize) -> bool {
    match m {
        0 => (y + x) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (y + x) % 3 == 0,
        4 => (y / 2 + x / 3) % 2 == 0,
        5 => (y * x) % 2 + (y * x) % 3 == 0,
        6 => ((y * x) % 2 + (y * x) % 3) % 2 == 0,
        7 => ((y + x) % 2 + (y * x) % 3) % 2 == 0,
        _ => unreachable!(),
    }
}

/// 15-bit format word (masked) for 5 data bits
pub fn format_word(data: u32) -> u32 {
    let mut rem = data;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    (data << 10 | rem) ^ 0x5412
}

/// module carrying bit i (LSB = 0) of the format word, first copy
pub fn format_pos1(i: usize) -> (usize, usize) {
    // (row, col)
    match i {
        0..=5 => (i, 8),
        6 => (7, 8),
        7 => (8, 8),
        8 => (8, 7),
        _ => (8, 14 - i),
    }
}
pub fn format_pos2(v: usize, i: usize) -> (usize, usize) {
    let n = size(v);
    if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) }
}

pub fn raw_modules(v: usize) -> usize {
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let a = v / 7 + 2;
        r -= (25 * a - 10) * a - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r
}

// ---------------------------------------------------------------- GF(256)
pub struct Gf {
    pub exp: [u8; 512],
    pub log: [u16; 256],
}
impl Gf {
    pub fn new() -> Gf {
        let mut exp = [0u8; 512];
        let mut log = [0u16; 256];
        let mut x = 1u32;
        for i in 0..255 {
            exp[i] = x as u8;
            log[x as usize] = i as u16;
            x <<= 1;
            if x & 0x100 != 0 {
                x ^= 0x11d;
            }
        }
        for i in 255..512 {
            exp[i] = exp[i - 255];
        }
        Gf { exp, log }
    }
    pub fn mul(&self, a: u8, b: u8) -> u8 {
        if a == 0 || b == 0 { 0 } else { self.exp[(self.log[a as usize] + self.log[b as usize]) as usize] }
    }
    pub fn gen_poly(&self, n: usize) -> Vec<u8> {
        // coefficients, highest degree (monic) omitted, from x^(n-1) down to x^0
        let mut r = vec![0u8; n];
        r[n - 1] = 1;
        let mut root = 1u8;
        for _ in 0..n {
            for j in 0..n {
                r[j] = self.mul(r[j], root);
                if j + 1 < n {
                    r[j] ^= r[j + 1];
                }
            }
            root = self.mul(root, 2);
        }
        r
    }
}

/// (total codewords, number of blocks, ecc per block, short data length, number of short blocks)
pub fn block_info(v: usize, level: usize) -> (usize, usize, usize, usize, usize) {
    let row = LEVEL_ROW[level];
    let total = raw_modules(v) / 8;
    let nb = BLOCKS[row][v - 1] as usize;
    let ec = ECC_PER_BLOCK[row][v - 1] as usize;
    let short = nb - total % nb;
    let short_len = total / nb - ec;
    (total, nb, ec, short_len, short)
}

// ---------------------------------------------------------------- symbolic encoder
use crate::val::{Bit, Lin};

/// Encode affine data bits. `data[i]` = 8 bits of data codeword i, most significant first.
pub struct Encoded {
    /// all codeword bits in transmission order (interleaved data, then interleaved parity), MSB first
    pub stream: Vec<[Bit; 8]>,
    /// (block, index in block) of every transmitted codeword
    pub origin: Vec<(usize, usize)>,
    /// codewords of every block, data then parity
    pub blocks: Vec<Vec<[Bit; 8]>>,
}

pub fn xor_all(parts: &[&Bit]) -> Bit {
    // dense accumulation
    let mut c = false;
    let mut acc: std::collections::BTreeMap<u32, u64> = Default::default();
    let mut n = 0;
    let mut single = None;
    for p in parts {
        match p {
            Bit::Z => {}
            Bit::O => c = !c,
            Bit::F(l, k) => {
                c ^= k;
                n += 1;
                single = Some(l.clone());
                for &(w, m) in &l.w {
                    *acc.entry(w).or_default() ^= m;
                }
            }
        }
    }
    if n == 1 {
        return Bit::F(single.unwrap(), c);
    }
    let l = Lin { w: acc.into_iter().filter(|e| e.1 != 0).collect() };
    Bit::form(l, c)
}

pub fn data_codewords(v: usize, level: usize) -> usize {
    let (total, nb, ec, _, _) = block_info(v, level);
    total - nb * ec
}

pub fn parity_matrix(gf: &Gf, dw: usize, ec: usize) -> Vec<Vec<u8>> {
    // row i: parity contribution of data byte value 1 at position i (linear over GF(256))
    let g = gf.gen_poly(ec);
    let mut rows = vec![];
    for i in 0..dw {
        let mut rem = vec![0u8; ec];
        for j in 0..dw {
            let d = if i == j { 1u8 } else { 0 };
            let f = d ^ rem[0];
            rem.remove(0);
            rem.push(0);
            for k in 0..ec {
                rem[k] ^= gf.mul(g[k], f);
            }
        }
        rows.push(rem);
    }
    rows
}

pub fn encode_blocks(v: usize, level: usize, data: &[[Bit; 8]]) -> Encoded {
    let gf = Gf::new();
    let (_, nb, ec, sl, short) = block_info(v, level);
    let mut blocks: Vec<Vec<[Bit; 8]>> = vec![];
    let mut pos = 0;
    let mut pm: std::collections::HashMap<usize, Vec<Vec<u8>>> = Default::default();
    for b in 0..nb {
        let dw = if b < short { sl } else { sl + 1 };
        let d = &data[pos..pos + dw];
        pos += dw;
        let m = pm.entry(dw).or_insert_with(|| parity_matrix(&gf, dw, ec));
        let mut blk: Vec<[Bit; 8]> = d.to_vec();
        for p in 0..ec {
            // parity byte p = sum_i m[i][p] * d[i]
            let mut parts: [Vec<&Bit>; 8] = Default::default();
            for i in 0..dw {
                let f = m[i][p];
                if f == 0 {
                    continue;
                }
                for k in 0..8 {
                    // data bit k (MSB first) has weight 0x80>>k
                    let pr = gf.mul(f, 0x80 >> k);
                    for o in 0..8 {
                        if pr >> (7 - o) & 1 == 1 {
                            parts[o].push(&d[i][k]);
                        }
                    }
                }
            }
            let byte: [Bit; 8] = std::array::from_fn(|o| xor_all(&parts[o]));
            blk.push(byte);
        }
        blocks.push(blk);
    }
    assert_eq!(pos, data.len());
    let mut stream = vec![];
    let mut origin = vec![];
    for i in 0..sl + 1 {
        for b in 0..nb {
            let dw = if b < short { sl } else { sl + 1 };
            if i < dw {
                stream.push(blocks[b][i].clone());
                origin.push((b, i));
            }
        }
    }
    for i in 0..ec {
        for b in 0..nb {
            let dw = if b < short { sl } else { sl + 1 };
            stream.push(blocks[b][dw + i].clone());
            origin.push((b, dw + i));
        }
    }
    Encoded { stream, origin, blocks }
}

/// module colours of a complete symbol; `free` supplies values for modules that carry no data
pub fn place(v: usize, level: usize, m: u64, stream: &[[Bit; 8]], rest: &Bit) -> Vec<Bit> {
    let n = size(v);
    let mut g = vec![Bit::Z; n * n];
    function_patterns(v, &mut g);
    let fw = format_word((level as u32) << 3 | m as u32);
    for i in 0..15 {
        let b = Bit::k(fw >> i & 1 == 1);
        for (y, x) in [format_pos1(i), format_pos2(v, i)] {
            g[y * n + x] = b.clone();
        }
    }
    for (i, (y, x)) in zigzag(v).into_iter().enumerate() {
        let b = match stream.get(i / 8) {
            Some(c) => c[i % 8].clone(),
            None => rest.clone(),
        };
        g[y * n + x] = if mask(m, y, x) { b.not() } else { b };
    }
    g
}

pub fn function_patterns(v: usize, g: &mut [Bit]) {
    let n = size(v);
    let mut set = |y: usize, x: usize, b: bool| g[y * n + x] = Bit::k(b);
    for i in 0..n {
        set(6, i, i % 2 == 0);
        set(i, 6, i % 2 == 0);
    }
    for (cy, cx) in [(3i64, 3i64), (3, n as i64 - 4), (n as i64 - 4, 3)] {
        for dy in -4..=4i64 {
            for dx in -4..=4i64 {
                let (y, x) = (cy + dy, cx + dx);
                if y < 0 || x < 0 || y >= n as i64 || x >= n as i64 {
                    continue;
                }
                let d = dy.abs().max(dx.abs());
                set(y as usize, x as usize, d != 2 && d != 4);
            }
        }
    }
    let c = align_centres(v);
    let k = c.len();
    for i in 0..k {
        for j in 0..k {
            if i == 0 && j == 0 || i == 0 && j + 1 == k || i + 1 == k && j == 0 {
                continue;
            }
            for dy in 0..5 {
                for dx in 0..5 {
                    let d = (dy as i64 - 2).abs().max((dx as i64 - 2).abs());
                    set(c[i] + dy - 2, c[j] + dx - 2, d != 1);
                }
            }
        }
    }
    set(n - 8, 8, true);
    if v >= 7 {
        let mut rem = v as u32;
        for _ in 0..12 {
            rem = (rem << 1) ^ ((rem >> 11) * 0x1f25);
        }
        let bits = (v as u32) << 12 | rem;
        for i in 0..18 {
            let b = bits >> i & 1 == 1;
            let (a, c) = (n - 11 + i % 3, i / 3);
            set(a, c, b);
            set(c, a, b);
        }
    }
}

// ---------------------------------------------------------------- format words
/// the 5 data bits of the valid format word within Hamming distance 3 (unique if it exists)
pub fn format_decode(w: u32) -> Option<u32> {
    (0..32).find(|&d| (format_word(d) ^ w).count_ones() <= 3)
}
pub fn reverse15(w: u32) -> u32 {
    (0..15).fold(0, |a, i| a | (w >> i & 1) << (14 - i))
}
/// set the two format copies of a grid
pub fn set_format(v: usize, g: &mut [Bit], c1: &dyn Fn(usize) -> Bit, c2: &dyn Fn(usize) -> Bit) {
    let n = size(v);
    for i in 0..15 {
        let (y, x) = format_pos1(i);
        g[y * n + x] = c1(i);
        let (y, x) = format_pos2(v, i);
        g[y * n + x] = c2(i);
    }
}
/// more than three wrong bits, yet one of the few patterns a Berlekamp-Massey decoder may still resolve to a
/// nearest valid word; whether such a word is refused is left open
pub fn format_open(w: u32) -> bool {
    let rot = |p: u32, k: u32| (p << k | p >> (15 - k)) & 0x7fff;
    format_decode(w).is_none()
        && (0..32).any(|d| {
            let e = format_word(d) ^ w;
            (0..15).any(|k| e == rot(0x00d1, k) || e == rot(0x1249, k))
        })
}
pub fn format_dead(w: u32) -> bool {
    format_decode(w).is_none() && !format_open(w)
}
/// some word that is not correctable, nor when read transposed
pub fn dead_word(k: u32) -> u32 {
    (0..1 << 15)
        .map(|i: u32| (i.wrapping_mul(0x2f1d).wrapping_add(k * 977)) & 0x7fff)
        .find(|&w| format_dead(w) && format_dead(reverse15(w)) && format_dead(reverse15(w) | 0x80) && format_dead(reverse15(w) & !0x80))
        .unwrap()
}
/// first-copy word: at most 3 wrong bits, plain reading gives `d`, the transposed reading is uncorrectable
pub fn oneway_word(d: u32) -> u32 {
    let w = format_word(d);
    for k in 0..4u32 {
        for e in 0..1u32 << 15 {
            if e.count_ones() == k && format_dead(reverse15(w ^ e)) {
                return w ^ e;
            }
        }
    }
    panic!("no such word")
}

// ---------------------------------------------------------------- concrete Reed-Solomon decoding oracle
impl Gf {
    pub fn inv(&self, a: u8) -> u8 {
        self.exp[(255 - self.log[a as usize] as usize) % 255]
    }
    pub fn pow2(&self, e: usize) -> u8 {
        self.exp[e % 255]
    }
    /// syndromes of a damage pattern over a block of length e.len()
    pub fn syndromes(&self, e: &[u8], ec: usize) -> Vec<u8> {
        (0..ec)
            .map(|i| e.iter().enumerate().fold(0, |a, (p, &b)| a ^ self.mul(b, self.pow2(i * (e.len() - 1 - p)))))
            .collect()
    }
    /// does some pattern of at most ec/2 damaged codewords have these syndromes?
    pub fn correctable(&self, s: &[u8], len: usize) -> bool {
        if s.iter().all(|&x| x == 0) {
            return true;
        }
        let ec = s.len();
        // Berlekamp-Massey
        let (mut c, mut b) = (vec![0u8; ec + 1], vec![0u8; ec + 1]);
        c[0] = 1;
        b[0] = 1;
        let (mut l, mut m, mut bb) = (0usize, 1usize, 1u8);
        for n in 0..ec {
            let mut d = s[n];
            for i in 1..=l {
                d ^= self.mul(c[i], s[n - i]);
            }
            if d == 0 {
                m += 1;
                continue;
            }
            let t = c.clone();
            let f = self.mul(d, self.inv(bb));
            for i in 0..=ec {
                if i + m <= ec {
                    c[i + m] ^= self.mul(f, b[i]);
                }
            }
            if 2 * l <= n {
                l = n + 1 - l;
                b = t;
                bb = d;
                m = 1;
            } else {
                m += 1;
            }
        }
        if l > ec / 2 {
            return false;
        }
        let roots: Vec<usize> = (0..len)
            .filter(|&p| {
                let xi = self.pow2(255 - p % 255);
                let mut x = 1u8;
                let mut a = 0u8;
                for i in 0..=ec {
                    a ^= self.mul(c[i], x);
                    x = self.mul(x, xi);
                }
                a == 0
            })
            .collect();
        roots.len() == l
    }
    /// damage of the last ec codewords of a block of length `len` with the given syndromes
    pub fn damage_with(&self, s: &[u8], len: usize) -> Vec<u8> {
        let ec = s.len();
        let mut a: Vec<Vec<u8>> = (0..ec)
            .map(|i| {
                let mut r: Vec<u8> = (0..ec).map(|k| self.pow2(i * (ec - 1 - k))).collect();
                r.push(s[i]);
                r
            })
            .collect();
        for c in 0..ec {
            let p = (c..ec).find(|&r| a[r][c] != 0).unwrap();
            a.swap(c, p);
            let iv = self.inv(a[c][c]);
            for x in a[c].iter_mut() {
                *x = self.mul(*x, iv);
            }
            let row = a[c].clone();
            for r in 0..ec {
                if r != c && a[r][c] != 0 {
                    let f = a[r][c];
                    for k in 0..=ec {
                        a[r][k] ^= self.mul(f, row[k]);
                    }
                }
            }
        }
        let mut e = vec![0u8; len];
        for k in 0..ec {
            e[len - ec + k] = a[k][ec];
        }
        e
    }
}
pub fn damage(byte: &[Bit; 8], e: u8) -> [Bit; 8] {
    std::array::from_fn(|i| if e >> (7 - i) & 1 == 1 { byte[i].not() } else { byte[i].clone() })
}
