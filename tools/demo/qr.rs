//! Small QR encoder (ISO/IEC 18004) used to build inputs for the demonstration programs.
#![allow(dead_code)]
pub const EC: [[u8; 40]; 4] = [
    [10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28],
    [7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    [17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    [13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
];
pub const NB: [[u8; 40]; 4] = [
    [1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49],
    [1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25],
    [1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81],
    [1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68],
];
pub fn size(v: usize) -> usize { 4 * v + 17 }
pub fn centres(v: usize) -> Vec<usize> {
    if v == 1 { return vec![]; }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut p: Vec<usize> = (0..n - 1).map(|i| size(v) - 7 - i * step).collect();
    p.push(6);
    p.reverse();
    p
}
pub fn function(v: usize, y: usize, x: usize) -> bool {
    let n = size(v);
    if y < 9 && x < 9 || y < 9 && x >= n - 8 || y >= n - 8 && x < 9 || y == 6 || x == 6 { return true; }
    if v >= 7 && (y < 6 && x >= n - 11 || x < 6 && y >= n - 11) { return true; }
    let c = centres(v);
    let k = c.len();
    for i in 0..k { for j in 0..k {
        if (i == 0 && j == 0) || (i == 0 && j + 1 == k) || (i + 1 == k && j == 0) { continue; }
        if y.abs_diff(c[i]) <= 2 && x.abs_diff(c[j]) <= 2 { return true; }
    } }
    false
}
pub fn zigzag(v: usize) -> Vec<(usize, usize)> {
    let n = size(v);
    let mut r = vec![];
    let mut right = n as i64 - 1;
    while right >= 1 {
        if right == 6 { right = 5; }
        for t in 0..n { for j in 0..2 {
            let x = (right - j) as usize;
            let y = if (right + 1) & 2 == 0 { n - 1 - t } else { t };
            if !function(v, y, x) { r.push((y, x)); }
        } }
        right -= 2;
    }
    r
}
pub fn mask(m: usize, y: usize, x: usize) -> bool {
    match m {
        0 => (y + x) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (y + x) % 3 == 0,
        4 => (y / 2 + x / 3) % 2 == 0,
        5 => (y * x) % 2 + (y * x) % 3 == 0,
        6 => ((y * x) % 2 + (y * x) % 3) % 2 == 0,
        _ => ((y + x) % 2 + (y * x) % 3) % 2 == 0,
    }
}
pub fn format_word(d: u32) -> u32 {
    let mut rem = d;
    for _ in 0..10 { rem = (rem << 1) ^ ((rem >> 9) * 0x537); }
    (d << 10 | rem) ^ 0x5412
}
pub fn pos1(i: usize) -> (usize, usize) {
    match i { 0..=5 => (i, 8), 6 => (7, 8), 7 => (8, 8), 8 => (8, 7), _ => (8, 14 - i) }
}
pub fn pos2(v: usize, i: usize) -> (usize, usize) {
    let n = size(v);
    if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) }
}
pub fn gmul(a: u8, b: u8) -> u8 {
    let (mut a, mut r) = (a as u32, 0u32);
    for i in 0..8 { if b >> i & 1 == 1 { r ^= a; } a <<= 1; if a & 0x100 != 0 { a ^= 0x11d; } }
    r as u8
}
pub fn parity(data: &[u8], n: usize) -> Vec<u8> {
    let mut g = vec![0u8; n];
    g[n - 1] = 1;
    let mut root = 1;
    for _ in 0..n {
        for j in 0..n { g[j] = gmul(g[j], root); if j + 1 < n { g[j] ^= g[j + 1]; } }
        root = gmul(root, 2);
    }
    let mut rem = vec![0u8; n];
    for &d in data {
        let f = d ^ rem.remove(0);
        rem.push(0);
        for k in 0..n { rem[k] ^= gmul(g[k], f); }
    }
    rem
}
/// (total codewords, blocks, parity per block, data codewords of a short block, number of short blocks)
pub fn layout(v: usize, l: usize) -> (usize, usize, usize, usize, usize) {
    let total = zigzag(v).len() / 8;
    let (nb, ec) = (NB[l][v - 1] as usize, EC[l][v - 1] as usize);
    (total, nb, ec, total / nb - ec, nb - total % nb)
}
pub fn capacity(v: usize, l: usize) -> usize { let t = layout(v, l); t.0 - t.1 * t.2 }
#[derive(Default, Clone)]
pub struct Bits(pub Vec<bool>);
impl Bits {
    pub fn put(&mut self, v: usize, n: usize) -> &mut Self { for i in (0..n).rev() { self.0.push(v >> i & 1 == 1); } self }
    pub fn codewords(&self, v: usize, l: usize) -> Vec<u8> {
        let cap = capacity(v, l);
        let mut b = self.0.clone();
        assert!(b.len() <= cap * 8, "too long");
        for _ in 0..4 { if b.len() < cap * 8 { b.push(false); } }
        while b.len() % 8 != 0 { b.push(false); }
        let mut r: Vec<u8> = b.chunks(8).map(|c| c.iter().fold(0, |a, &x| a << 1 | x as u8)).collect();
        let mut p = 0xec;
        while r.len() < cap { r.push(p); p ^= 0xec ^ 0x11; }
        r
    }
}
pub struct Symbol { pub v: usize, pub l: usize, pub m: usize, pub blocks: Vec<Vec<u8>>, pub dw: Vec<usize> }
impl Symbol {
    /// l: two-bit level indicator as stored in the format word (0=M, 1=L, 2=H, 3=Q)
    pub fn new(v: usize, l: usize, m: usize, data: &[u8]) -> Symbol {
        let (_, nb, ec, sl, short) = layout(v, l);
        let (mut blocks, mut dws, mut p) = (vec![], vec![], 0);
        for b in 0..nb {
            let dw = if b < short { sl } else { sl + 1 };
            let mut k = data[p..p + dw].to_vec();
            k.extend(parity(&data[p..p + dw], ec));
            p += dw;
            blocks.push(k);
            dws.push(dw);
        }
        assert_eq!(p, data.len());
        Symbol { v, l, m, blocks, dw: dws }
    }
    pub fn stream(&self) -> Vec<u8> {
        let mut r = vec![];
        let (_, nb, ec, sl, _) = layout(self.v, self.l);
        for i in 0..sl + 1 { for b in 0..nb { if i < self.dw[b] { r.push(self.blocks[b][i]); } } }
        for i in 0..ec { for b in 0..nb { r.push(self.blocks[b][self.dw[b] + i]); } }
        r
    }
    pub fn grid(&self) -> Grid {
        let n = size(self.v);
        let mut g = Grid { n, c: vec![false; n * n] };
        functions(self.v, &mut g);
        let f = format_word((self.l << 3 | self.m) as u32);
        for i in 0..15 { for (y, x) in [pos1(i), pos2(self.v, i)] { g.c[y * n + x] = f >> i & 1 == 1; } }
        let s = self.stream();
        for (i, (y, x)) in zigzag(self.v).into_iter().enumerate() {
            let b = s.get(i / 8).map_or(false, |c| c >> (7 - i % 8) & 1 == 1);
            g.c[y * n + x] = b ^ mask(self.m, y, x);
        }
        g
    }
}
#[derive(Clone)]
pub struct Grid { pub n: usize, pub c: Vec<bool> }
impl Grid {
    pub fn transposed(&self) -> Grid {
        let mut g = self.clone();
        for y in 0..self.n { for x in 0..self.n { g.c[y * self.n + x] = self.c[x * self.n + y]; } }
        g
    }
    pub fn flip(&mut self, y: usize, x: usize) { let i = y * self.n + x; self.c[i] = !self.c[i]; }
    pub fn grid(&self) -> rqrr::Grid<rqrr::SimpleGrid> {
        rqrr::Grid::new(rqrr::SimpleGrid::from_func(self.n, |x, y| self.c[y * self.n + x]))
    }
    pub fn decode(&self) -> Result<Vec<u8>, rqrr::DeQRError> {
        let mut o = vec![];
        self.grid().decode_to(&mut o).map(|_| o)
    }
    /// render with `s` pixels per module and a quiet zone of `q` modules
    pub fn image(&self, s: usize, q: usize) -> (usize, Vec<bool>) {
        let w = (self.n + 2 * q) * s;
        let mut p = vec![false; w * w];
        for y in 0..w { for x in 0..w {
            let (my, mx) = ((y / s) as i64 - q as i64, (x / s) as i64 - q as i64);
            if my >= 0 && mx >= 0 && (my as usize) < self.n && (mx as usize) < self.n {
                p[y * w + x] = self.c[my as usize * self.n + mx as usize];
            }
        } }
        (w, p)
    }
}
pub fn functions(v: usize, g: &mut Grid) {
    let n = size(v);
    let mut set = |y: usize, x: usize, b: bool| g.c[y * n + x] = b;
    for i in 0..n { set(6, i, i % 2 == 0); set(i, 6, i % 2 == 0); }
    for (cy, cx) in [(3i64, 3i64), (3, n as i64 - 4), (n as i64 - 4, 3)] {
        for dy in -4..=4i64 { for dx in -4..=4i64 {
            let (y, x) = (cy + dy, cx + dx);
            if y < 0 || x < 0 || y >= n as i64 || x >= n as i64 { continue; }
            let d = dy.abs().max(dx.abs());
            set(y as usize, x as usize, d != 2 && d != 4);
        } }
    }
    let c = centres(v);
    let k = c.len();
    for i in 0..k { for j in 0..k {
        if (i == 0 && j == 0) || (i == 0 && j + 1 == k) || (i + 1 == k && j == 0) { continue; }
        for dy in 0..5 { for dx in 0..5 {
            let d = (dy as i64 - 2).abs().max((dx as i64 - 2).abs());
            set(c[i] + dy - 2, c[j] + dx - 2, d != 1);
        } }
    } }
    set(n - 8, 8, true);
    if v >= 7 {
        let mut rem = v as u32;
        for _ in 0..12 { rem = (rem << 1) ^ ((rem >> 11) * 0x1f25); }
        let bits = (v as u32) << 12 | rem;
        for i in 0..18 {
            let b = bits >> i & 1 == 1;
            let (a, d) = (n - 11 + i % 3, i / 3);
            set(a, d, b);
            set(d, a, b);
        }
    }
}
/// byte segment
pub fn bytes(v: usize, t: &[u8]) -> Bits {
    let mut b = Bits::default();
    b.put(4, 4).put(t.len(), if v < 10 { 8 } else { 16 });
    for &c in t { b.put(c as usize, 8); }
    b
}
pub fn text(n: usize, seed: usize) -> Vec<u8> { (0..n).map(|i| b'A' + ((i * 7 + seed * 13 + i * i) % 58) as u8).collect() }
pub struct Rng(pub u64);
impl Rng { pub fn next(&mut self, n: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) as usize % n } }
