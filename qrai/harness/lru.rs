
/// the region table: an association list inside the table's own memory
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vl {
    use crate::prepare::ColoredRegion;
    use lru::LruCache;
    type C = LruCache<u8, ColoredRegion>;
    type T = Vec<(u8, ColoredRegion)>;
    struct H {
        cap: usize,
        v: *mut T,
    }
    fn h(c: &C) -> &H {
        unsafe { &*(c as *const C as *const H) }
    }
    fn t(c: &C) -> &mut T {
        unsafe { &mut *h(c).v }
    }
    pub fn lru_new(cap: std::num::NonZeroUsize) -> C {
        unsafe {
            let mut m = std::mem::MaybeUninit::<C>::uninit();
            let p = m.as_mut_ptr() as *mut H;
            (*p).cap = cap.get();
            (*p).v = Box::into_raw(Box::new(Vec::new()));
            m.assume_init()
        }
    }
    pub fn lru_cap(c: &C) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(h(c).cap).unwrap()
    }
    pub fn lru_len(c: &C) -> usize {
        t(c).len()
    }
    pub fn lru_is_empty(c: &C) -> bool {
        t(c).len() == 0
    }
    /// most recently used first
    fn touch(c: &C, k: u8) -> bool {
        let v = t(c);
        for i in 0..v.len() {
            if v[i].0 == k {
                let e = v.remove(i);
                v.insert(0, e);
                return true;
            }
        }
        false
    }
    pub fn lru_get<'a>(c: &'a mut C, k: &u8) -> Option<&'a ColoredRegion> {
        if touch(c, *k) { Some(&t(c)[0].1) } else { None }
    }
    pub fn lru_get_mut<'a>(c: &'a mut C, k: &u8) -> Option<&'a mut ColoredRegion> {
        if touch(c, *k) { Some(&mut t(c)[0].1) } else { None }
    }
    pub fn lru_peek<'a>(c: &'a C, k: &u8) -> Option<&'a ColoredRegion> {
        let v = t(c);
        for i in 0..v.len() {
            if v[i].0 == *k {
                return Some(&v[i].1);
            }
        }
        None
    }
    pub fn lru_contains(c: &C, k: &u8) -> bool {
        lru_peek(c, k).is_some()
    }
    pub fn lru_pop_lru(c: &mut C) -> Option<(u8, ColoredRegion)> {
        t(c).pop()
    }
    pub fn lru_put(c: &mut C, k: u8, v: ColoredRegion) -> Option<ColoredRegion> {
        if touch(c, k) {
            let e = &mut t(c)[0];
            let old = e.1;
            e.1 = v;
            return Some(old);
        }
        if t(c).len() == h(c).cap {
            t(c).pop();
        }
        t(c).insert(0, (k, v));
        None
    }
    pub fn lru_push(c: &mut C, k: u8, v: ColoredRegion) -> Option<(u8, ColoredRegion)> {
        lru_put(c, k, v).map(|v| (k, v))
    }
    pub fn lru_clear(c: &mut C) {
        while t(c).pop().is_some() {}
    }
    pub fn lru_LruCache_clone(c: &C) -> C {
        let mut n = lru_new(lru_cap(c));
        let v = t(c);
        for i in 0..v.len() {
            t(&n).push((v[i].0, v[i].1));
        }
        n
    }
    struct I {
        v: *mut T,
        lo: usize,
        hi: usize,
    }
    pub fn lru_iter(c: &C) -> lru::Iter<'_, u8, ColoredRegion> {
        unsafe {
            let mut m = std::mem::MaybeUninit::<lru::Iter<'_, u8, ColoredRegion>>::uninit();
            let p = m.as_mut_ptr() as *mut I;
            (*p).v = h(c).v;
            (*p).lo = 0;
            (*p).hi = t(c).len();
            m.assume_init()
        }
    }
    pub fn lru_Iter_next<'a>(i: &mut lru::Iter<'a, u8, ColoredRegion>) -> Option<(&'a u8, &'a ColoredRegion)> {
        unsafe {
            let i = &mut *(i as *mut _ as *mut I);
            if i.lo == i.hi {
                return None;
            }
            let e = &(&*i.v)[i.lo];
            i.lo += 1;
            Some((&e.0, &e.1))
        }
    }
    pub fn lru_Iter_next_back<'a>(i: &mut lru::Iter<'a, u8, ColoredRegion>) -> Option<(&'a u8, &'a ColoredRegion)> {
        unsafe {
            let i = &mut *(i as *mut _ as *mut I);
            if i.lo == i.hi {
                return None;
            }
            i.hi -= 1;
            let e = &(&*i.v)[i.hi];
            Some((&e.0, &e.1))
        }
    }
}
