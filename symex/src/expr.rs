//! Hash-consed bit-vector terms with local simplification, interval facts and evaluation.

use crate::ir::BinOp;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Sym,
    Bin(BinOp),
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

impl V {
    pub fn c(&self) -> Option<u128> {
        match self {
            V::C(k) => Some(*k),
            _ => None,
        }
    }
    pub fn is_c(&self) -> bool {
        matches!(self, V::C(_))
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(k: u128, w: u32) -> i128 {
    let sh = 128 - w;
    ((k << sh) as i128) >> sh
}

pub type SymSet = Rc<Vec<u32>>;

pub struct Pool {
    pub n: Vec<Node>,
    map: HashMap<Node, E>,
    iv: Vec<(u128, u128)>,
    syms: Vec<Option<SymSet>>,
    /// number of nodes of an Ite tree whose leaves are all constants; 0 when not such a tree
    leaf: Vec<u32>,
    pub sym_w: Vec<u32>,
    pub sym_names: Vec<String>,
}

const MAXLEAF: u32 = 2048;

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: vec![],
            map: HashMap::new(),
            iv: vec![],
            syms: vec![],
            leaf: vec![],
            sym_w: vec![],
            sym_names: vec![],
        };
        // node 0 is reserved (memory uses 0 for "concrete byte")
        p.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        p
    }
    fn mk(&mut self, nd: Node) -> E {
        if let Some(e) = self.map.get(&nd) {
            return *e;
        }
        let e = self.n.len() as E;
        let iv = self.interval_of(&nd);
        let leaf = match nd.op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.leaf[nd.b as usize], self.leaf[nd.c as usize]);
                if x > 0 && y > 0 && x + y + 1 <= MAXLEAF {
                    x + y + 1
                } else {
                    0
                }
            }
            _ => 0,
        };
        self.n.push(nd);
        self.iv.push(iv);
        self.syms.push(None);
        self.leaf.push(leaf);
        self.map.insert(nd, e);
        e
    }
    pub fn width(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }
    pub fn ce(&mut self, k: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    /// Term for a value of width w.
    pub fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.ce(*k, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn v(&self, e: E) -> V {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            V::C(n.k)
        } else {
            V::S(e)
        }
    }
    pub fn new_sym(&mut self, name: &str, w: u32) -> E {
        let id = self.sym_w.len() as u32;
        self.sym_w.push(w);
        self.sym_names.push(name.to_string());
        self.mk(Node { op: Op::Sym, w, a: id, b: 0, c: 0, k: 0 })
    }
    pub fn sym_expr(&mut self, id: u32) -> E {
        let w = self.sym_w[id as usize];
        self.mk(Node { op: Op::Sym, w, a: id, b: 0, c: 0, k: 0 })
    }
    pub fn interval(&self, e: E) -> (u128, u128) {
        self.iv[e as usize]
    }
    pub fn vinterval(&self, v: &V) -> (u128, u128) {
        match v {
            V::C(k) => (*k, *k),
            V::S(e) => self.iv[*e as usize],
            _ => (0, u128::MAX),
        }
    }
    fn interval_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        let ia = |e: E| self.iv[e as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Sym => full,
            Op::ZExt => ia(n.a),
            Op::SExt => {
                let (l, h) = ia(n.a);
                let wa = self.n[n.a as usize].w;
                if h < (1u128 << (wa - 1)) {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Concat => {
                let wb = self.n[n.b as usize].w;
                let (la, ha) = ia(n.a);
                let (lb, hb) = ia(n.b);
                ((la << wb) | lb, (ha << wb) | hb)
            }
            Op::Extract => {
                let (l, h) = ia(n.a);
                let lo = n.k as u32;
                let (l, h) = (l >> lo, h >> lo);
                if h <= m {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Eq | Op::Ult | Op::Slt => (0, 1),
            Op::Ite => {
                let (l1, h1) = ia(n.b);
                let (l2, h2) = ia(n.c);
                (l1.min(l2), h1.max(h2))
            }
            Op::Bin(b) => {
                let (la, ha) = ia(n.a);
                let (lb, hb) = ia(n.b);
                match b {
                    BinOp::Add => {
                        if n.w >= 127 {
                            return full;
                        }
                        if ha + hb <= m {
                            (la + lb, ha + hb)
                        } else if la + lb > m {
                            (la + lb - m - 1, ha + hb - m - 1)
                        } else {
                            full
                        }
                    }
                    BinOp::Sub => {
                        if la >= hb {
                            (la - hb, ha - lb)
                        } else {
                            full
                        }
                    }
                    BinOp::Mul => match ha.checked_mul(hb) {
                        Some(h) if h <= m => (la * lb, h),
                        _ => full,
                    },
                    BinOp::UDiv => {
                        if lb > 0 {
                            (la / hb, ha / lb)
                        } else {
                            full
                        }
                    }
                    BinOp::URem => {
                        if lb == hb && lb > 0 && la / lb == ha / lb {
                            (la % lb, ha % lb)
                        } else if lb > 0 {
                            (0, ha.min(hb - 1))
                        } else {
                            full
                        }
                    }
                    BinOp::And => (0, ha.min(hb)),
                    BinOp::Or => {
                        let x = ha | hb;
                        let top = if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
                        (la.max(lb), top)
                    }
                    BinOp::Xor => {
                        let x = ha | hb;
                        let top = if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
                        (0, top)
                    }
                    BinOp::Shl => {
                        if lb == hb && lb < n.w as u128 {
                            let s = lb as u32;
                            if s < 128 && ha <= (m >> s) {
                                return (la << s, ha << s);
                            }
                        }
                        full
                    }
                    BinOp::LShr => {
                        if lb == hb {
                            if lb >= n.w as u128 {
                                (0, 0)
                            } else {
                                (la >> lb, ha >> lb)
                            }
                        } else {
                            (0, ha)
                        }
                    }
                    BinOp::AShr => {
                        if lb == hb && lb < n.w as u128 && ha < (1u128 << (n.w - 1)) {
                            (la >> lb, ha >> lb)
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
        }
    }

    pub fn syms(&mut self, e: E) -> SymSet {
        if let Some(s) = &self.syms[e as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.syms[x as usize].is_some() {
                st.pop();
                continue;
            }
            let n = self.n[x as usize];
            let ch: &[E] = match n.op {
                Op::Const | Op::Sym => &[],
                Op::Extract | Op::ZExt | Op::SExt => &[n.a][..],
                Op::Ite => &[n.a, n.b, n.c][..],
                _ => &[n.a, n.b][..],
            };
            let ch: Vec<E> = ch.to_vec();
            let mut ready = true;
            for &c in &ch {
                if self.syms[c as usize].is_none() {
                    st.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let s: SymSet = match n.op {
                Op::Const => Rc::new(vec![]),
                Op::Sym => Rc::new(vec![n.a]),
                _ => {
                    let mut acc: SymSet = self.syms[ch[0] as usize].clone().unwrap();
                    for &c in &ch[1..] {
                        let o = self.syms[c as usize].clone().unwrap();
                        if Rc::ptr_eq(&acc, &o) || o.is_empty() {
                            continue;
                        }
                        if acc.is_empty() {
                            acc = o;
                            continue;
                        }
                        let mut v: Vec<u32> = acc.iter().chain(o.iter()).cloned().collect();
                        v.sort_unstable();
                        v.dedup();
                        if v.len() != acc.len() {
                            acc = Rc::new(v);
                        }
                    }
                    acc
                }
            };
            self.syms[x as usize] = Some(s);
            st.pop();
        }
        self.syms[e as usize].clone().unwrap()
    }

    // ---------------------------------------------------------------- evaluation

    pub fn eval(&self, e: E, model: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.n[x as usize];
            let r = match n.op {
                Op::Const => n.k,
                Op::Sym => model.get(n.a) & mask(n.w),
                Op::Extract => match memo.get(&n.a) {
                    Some(a) => (a >> n.k) & mask(n.w),
                    None => {
                        st.push(n.a);
                        continue;
                    }
                },
                Op::ZExt => match memo.get(&n.a) {
                    Some(a) => *a,
                    None => {
                        st.push(n.a);
                        continue;
                    }
                },
                Op::SExt => match memo.get(&n.a) {
                    Some(a) => (sx(*a, self.n[n.a as usize].w) as u128) & mask(n.w),
                    None => {
                        st.push(n.a);
                        continue;
                    }
                },
                Op::Ite => match memo.get(&n.a) {
                    Some(a) => {
                        let t = if *a != 0 { n.b } else { n.c };
                        match memo.get(&t) {
                            Some(v) => *v,
                            None => {
                                st.push(t);
                                continue;
                            }
                        }
                    }
                    None => {
                        st.push(n.a);
                        continue;
                    }
                },
                _ => match (memo.get(&n.a), memo.get(&n.b)) {
                    (Some(a), Some(b)) => {
                        let wa = self.n[n.a as usize].w;
                        let wb = self.n[n.b as usize].w;
                        match n.op {
                            Op::Bin(o) => fold(o, wa, *a, *b),
                            Op::Concat => (a << wb) | b,
                            Op::Eq => (a == b) as u128,
                            Op::Ult => (a < b) as u128,
                            Op::Slt => (sx(*a, wa) < sx(*b, wa)) as u128,
                            _ => unreachable!(),
                        }
                    }
                    (None, None) => {
                        st.push(n.a);
                        st.push(n.b);
                        continue;
                    }
                    (None, _) => {
                        st.push(n.a);
                        continue;
                    }
                    (_, None) => {
                        st.push(n.b);
                        continue;
                    }
                },
            };
            memo.insert(x, r);
            st.pop();
        }
        memo[&e]
    }

    // ---------------------------------------------------------------- constructors

    fn kconst(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    /// Applies f to every constant leaf of an Ite tree.
    fn map_leaves(&mut self, e: E, w: u32, f: &dyn Fn(u128) -> u128, memo: &mut HashMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.n[e as usize];
        let r = match n.op {
            Op::Const => {
                let k = f(n.k);
                self.ce(k, w)
            }
            Op::Ite => {
                let b = self.map_leaves(n.b, w, f, memo);
                let c = self.map_leaves(n.c, w, f, memo);
                self.ite_e(n.a, b, c)
            }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    fn is_tree(&self, e: E) -> bool {
        self.leaf[e as usize] > 1
    }

    pub fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold(op, w, *x, *y));
        }
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        let r = self.bin_e(op, ea, eb);
        self.v(r)
    }

    pub fn bin_e(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ka, kb) = (self.kconst(a), self.kconst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.ce(fold(op, w, x, y), w);
        }
        let commut = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if commut && ka.is_some() {
            return self.bin_e(op, b, a);
        }
        let m = mask(w);
        if let Some(k) = kb {
            match (op, k) {
                (BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr, 0) => return a,
                (BinOp::Mul | BinOp::And, 0) => return b,
                (BinOp::Mul | BinOp::UDiv | BinOp::SDiv, 1) => return a,
                (BinOp::URem, 1) => return self.ce(0, w),
                (BinOp::And, _) if k == m => return a,
                (BinOp::Or, _) if k == m => return b,
                (BinOp::Shl | BinOp::LShr, s) if s >= w as u128 => return self.ce(0, w),
                _ => {}
            }
            if op == BinOp::Sub {
                let nk = self.ce(k.wrapping_neg() & m, w);
                return self.bin_e(BinOp::Add, a, nk);
            }
            if self.is_tree(a) {
                return self.map_leaves(a, w, &|x| fold(op, w, x, k), &mut HashMap::new());
            }
            let na = self.n[a as usize];
            match op {
                BinOp::Add => {
                    if let Op::Bin(BinOp::Add) = na.op {
                        if let Some(k2) = self.kconst(na.b) {
                            let kk = self.ce(k.wrapping_add(k2) & m, w);
                            return self.bin_e(BinOp::Add, na.a, kk);
                        }
                    }
                }
                BinOp::And => {
                    let (_, h) = self.iv[a as usize];
                    // low mask
                    if (k + 1).is_power_of_two() {
                        if h <= k {
                            return a;
                        }
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract_e(a, 0, bits);
                        return self.zext_e(x, w);
                    }
                    if let Op::Bin(BinOp::And) = na.op {
                        if let Some(k2) = self.kconst(na.b) {
                            let kk = self.ce(k & k2, w);
                            return self.bin_e(BinOp::And, na.a, kk);
                        }
                    }
                    if let Op::ZExt = na.op {
                        let wi = self.width(na.a);
                        let kk = self.ce(k & mask(wi), wi);
                        let x = self.bin_e(BinOp::And, na.a, kk);
                        return self.zext_e(x, w);
                    }
                    // high mask (clear low bits): keep extract/shift form
                    let low = k.trailing_zeros();
                    if k >> low == m >> low && low > 0 {
                        let x = self.extract_e(a, low, w - low);
                        let z = self.ce(0, low);
                        return self.concat_e(x, z);
                    }
                }
                BinOp::Shl => {
                    let s = k as u32;
                    let x = self.extract_e(a, 0, w - s);
                    let z = self.ce(0, s);
                    return self.concat_e(x, z);
                }
                BinOp::LShr => {
                    let s = k as u32;
                    let x = self.extract_e(a, s, w - s);
                    return self.zext_e(x, w);
                }
                BinOp::AShr => {
                    let s = (k as u32).min(w - 1);
                    let (_, h) = self.iv[a as usize];
                    if w < 128 && h < (1u128 << (w - 1)) {
                        let kk = self.ce(s as u128, w);
                        return self.bin_e(BinOp::LShr, a, kk);
                    }
                    let x = self.extract_e(a, s, w - s);
                    return self.sext_e(x, w);
                }
                BinOp::Mul => {
                    if k.is_power_of_two() {
                        let s = self.ce(k.trailing_zeros() as u128, w);
                        return self.bin_e(BinOp::Shl, a, s);
                    }
                    if let Op::Bin(BinOp::Mul) = na.op {
                        if let Some(k2) = self.kconst(na.b) {
                            let kk = self.ce(k.wrapping_mul(k2) & m, w);
                            return self.bin_e(BinOp::Mul, na.a, kk);
                        }
                    }
                }
                BinOp::UDiv => {
                    if k.is_power_of_two() {
                        let s = self.ce(k.trailing_zeros() as u128, w);
                        return self.bin_e(BinOp::LShr, a, s);
                    }
                    let (l, h) = self.iv[a as usize];
                    let (ql, qh) = (l / k, h / k);
                    if qh - ql <= 3 {
                        let mut r = self.ce(qh, w);
                        let mut q = qh;
                        while q > ql {
                            let bound = self.ce(q * k, w);
                            let c = self.ult_e(a, bound);
                            let lower = self.ce(q - 1, w);
                            // a < q*k -> at most q-1
                            r = if q == qh {
                                self.ite_e(c, lower, r)
                            } else {
                                self.ite_e(c, lower, r)
                            };
                            q -= 1;
                        }
                        return r;
                    }
                }
                BinOp::URem => {
                    if k.is_power_of_two() {
                        let mk = self.ce(k - 1, w);
                        return self.bin_e(BinOp::And, a, mk);
                    }
                    let (l, h) = self.iv[a as usize];
                    if h / k - l / k <= 3 {
                        let q = self.bin_e(BinOp::UDiv, a, b);
                        // per-quotient linear leaf
                        let (ql, qh) = (l / k, h / k);
                        let sub = |p: &mut Pool, q: u128| {
                            let t = p.ce((q * k).wrapping_neg() & m, w);
                            p.bin_e(BinOp::Add, a, t)
                        };
                        let _ = q;
                        let mut r = sub(self, qh);
                        let mut q = qh;
                        while q > ql {
                            let bound = self.ce(q * k, w);
                            let c = self.ult_e(a, bound);
                            let lower = sub(self, q - 1);
                            r = self.ite_e(c, lower, r);
                            q -= 1;
                        }
                        return r;
                    }
                }
                BinOp::SDiv | BinOp::SRem => {
                    let (_, h) = self.iv[a as usize];
                    if w < 128 && h < (1u128 << (w - 1)) && k < (1u128 << (w - 1)) {
                        let o = if op == BinOp::SDiv { BinOp::UDiv } else { BinOp::URem };
                        return self.bin_e(o, a, b);
                    }
                }
                BinOp::Xor if w == 1 => {
                    // logical not
                    if let Op::Ite = na.op {
                        // handled generally below
                    }
                    if let Op::Bin(BinOp::Xor) = na.op {
                        if self.kconst(na.b) == Some(1) {
                            return na.a;
                        }
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.ce(0, w),
                _ => {}
            }
        }
        if ka == Some(0) && matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr | BinOp::UDiv | BinOp::URem) {
            if !matches!(op, BinOp::UDiv | BinOp::URem) {
                return a;
            }
        }
        if op == BinOp::Or || op == BinOp::Xor || op == BinOp::Add {
            // disjoint zext/concat patterns: or(concat(x,0),zext(y)) -> concat(x,y)
            if let Some(r) = self.try_or_concat(a, b) {
                return r;
            }
            if let Some(r) = self.try_or_concat(b, a) {
                return r;
            }
        }
        if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) && w > 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            // split bitwise operators along a concat boundary
            if na.op == Op::Concat || nb.op == Op::Concat {
                let cut = if na.op == Op::Concat { self.width(na.b) } else { self.width(nb.b) };
                let ah = self.extract_e(a, cut, w - cut);
                let al = self.extract_e(a, 0, cut);
                let bh = self.extract_e(b, cut, w - cut);
                let bl = self.extract_e(b, 0, cut);
                let h = self.bin_e(op, ah, bh);
                let l = self.bin_e(op, al, bl);
                return self.concat_e(h, l);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let wi = self.width(na.a).max(self.width(nb.a));
                let x = self.extract_e(a, 0, wi);
                let y = self.extract_e(b, 0, wi);
                let r = self.bin_e(op, x, y);
                return self.zext_e(r, w);
            }
            if na.op == Op::ZExt && kb.is_some() && op != BinOp::And {
                let wi = self.width(na.a);
                let k = kb.unwrap();
                let kl = self.ce(k & mask(wi), wi);
                let lo = self.bin_e(op, na.a, kl);
                let hi = self.ce(k >> wi, w - wi);
                return self.concat_e(hi, lo);
            }
        }
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            // both small: divide at smaller width
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if matches!(op, BinOp::UDiv | BinOp::URem) {
                let ha = self.iv[a as usize].1.max(self.iv[b as usize].1);
                let bits = (128 - ha.leading_zeros()).max(1);
                if bits < w && (na.op == Op::ZExt || nb.op == Op::ZExt || kb.is_some()) && bits + 8 <= w {
                    let x = self.extract_e(a, 0, bits);
                    let y = self.extract_e(b, 0, bits);
                    let r = self.bin_e(op, x, y);
                    return self.zext_e(r, w);
                }
            }
        }
        if w == 1 {
            match op {
                BinOp::Add | BinOp::Sub => return self.bin_e(BinOp::Xor, a, b),
                BinOp::Mul => return self.bin_e(BinOp::And, a, b),
                _ => {}
            }
            // a & !a, a | !a
            if matches!(op, BinOp::And | BinOp::Or) {
                let nb_ = self.not_e(b);
                if nb_ == a {
                    return self.ce(if op == BinOp::And { 0 } else { 1 }, 1);
                }
            }
        }
        let (x, y) = if commut && a > b && kb.is_none() { (b, a) } else { (a, b) };
        self.mk(Node { op: Op::Bin(op), w, a: x, b: y, c: 0, k: 0 })
    }

    /// a = concat(x, 0_n) and b fits in n bits -> concat(x, b[n-1:0])
    fn try_or_concat(&mut self, a: E, b: E) -> Option<E> {
        let na = self.n[a as usize];
        if na.op != Op::Concat {
            return None;
        }
        if self.kconst(na.b) != Some(0) {
            return None;
        }
        let wl = self.width(na.b);
        let (_, hb) = self.iv[b as usize];
        if hb > mask(wl) {
            return None;
        }
        let lo = self.extract_e(b, 0, wl);
        Some(self.concat_e(na.a, lo))
    }

    pub fn not_e(&mut self, a: E) -> E {
        let one = self.ce(1, 1);
        self.bin_e(BinOp::Xor, a, one)
    }
    pub fn not(&mut self, a: &V) -> V {
        self.bin(BinOp::Xor, 1, a, &V::C(1))
    }
    pub fn and(&mut self, a: &V, b: &V) -> V {
        self.bin(BinOp::And, 1, a, b)
    }
    pub fn or(&mut self, a: &V, b: &V) -> V {
        self.bin(BinOp::Or, 1, a, b)
    }

    pub fn extract_e(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        assert!(lo + w <= n.w, "extract {}+{} of {}", lo, w, n.w);
        if w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.ce((n.k >> lo) & mask(w), w),
            Op::Extract => return self.extract_e(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wb = self.width(n.b);
                if lo + w <= wb {
                    return self.extract_e(n.b, lo, w);
                }
                if lo >= wb {
                    return self.extract_e(n.a, lo - wb, w);
                }
                let h = self.extract_e(n.a, 0, lo + w - wb);
                let l = self.extract_e(n.b, lo, wb - lo);
                return self.concat_e(h, l);
            }
            Op::ZExt => {
                let wi = self.width(n.a);
                if lo >= wi {
                    return self.ce(0, w);
                }
                if lo + w <= wi {
                    return self.extract_e(n.a, lo, w);
                }
                let x = self.extract_e(n.a, lo, wi - lo);
                return self.zext_e(x, w);
            }
            Op::SExt => {
                let wi = self.width(n.a);
                if lo + w <= wi {
                    return self.extract_e(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext_e(n.a, w);
                }
            }
            Op::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor)) => {
                let x = self.extract_e(n.a, lo, w);
                let y = self.extract_e(n.b, lo, w);
                return self.bin_e(o, x, y);
            }
            Op::Bin(o @ (BinOp::Add | BinOp::Sub | BinOp::Mul)) if lo == 0 => {
                let x = self.extract_e(n.a, 0, w);
                let y = self.extract_e(n.b, 0, w);
                return self.bin_e(o, x, y);
            }
            Op::Ite => {
                if self.leaf[a as usize] > 0 {
                    return self.map_leaves(a, w, &|x| (x >> lo) & mask(w), &mut HashMap::new());
                }
                let x = self.extract_e(n.b, lo, w);
                let y = self.extract_e(n.c, lo, w);
                return self.ite_e(n.a, x, y);
            }
            _ => {}
        }
        // bits above the interval's top are zero
        let (_, h) = self.iv[a as usize];
        let top = 128 - h.leading_zeros();
        if lo >= top {
            return self.ce(0, w);
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn extract(&mut self, a: &V, aw: u32, lo: u32, w: u32) -> V {
        if let V::C(k) = a {
            return V::C((k >> lo) & mask(w));
        }
        let e = self.e(a, aw);
        let r = self.extract_e(e, lo, w);
        self.v(r)
    }
    pub fn concat_e(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w + nb.w;
        assert!(w <= 128, "concat wider than 128");
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.ce((na.k << nb.w) | nb.k, w);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext_e(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract_e(na.a, nb.k as u32, w);
        }
        // whole low part: concat(extract(x, n..), x') where x' is extract 0 handled above
        if nb.op == Op::Concat {
            // right-associate so that adjacent extracts meet: concat(a, concat(b1,b2)) with a,b1 adjacent
            let n1 = self.n[nb.a as usize];
            if na.op == Op::Extract && n1.op == Op::Extract && na.a == n1.a && na.k == n1.k + n1.w as u128 {
                let h = self.concat_e(a, nb.a);
                return self.concat_e(h, nb.b);
            }
            if na.op == Op::Const && n1.op == Op::Const {
                let h = self.concat_e(a, nb.a);
                return self.concat_e(h, nb.b);
            }
        }
        if na.op == Op::Concat {
            // left form -> right form: concat(concat(x,y),b) = concat(x, concat(y,b))
            let y = self.concat_e(na.b, b);
            return self.concat_e(na.a, y);
        }
        if na.op == Op::ZExt {
            let wi = self.width(na.a);
            let lo = self.concat_e(na.a, b);
            debug_assert!(wi < na.w);
            return self.zext_e(lo, w);
        }
        // zero-extension written as concat(extract...) not simplified further
        self.mk(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn zext_e(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        assert!(n.w < w);
        match n.op {
            Op::Const => return self.ce(n.k, w),
            Op::ZExt => return self.zext_e(n.a, w),
            Op::Ite if self.leaf[a as usize] > 0 && self.leaf[a as usize] <= 64 => {
                return self.map_leaves(a, w, &|x| x, &mut HashMap::new());
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext_e(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.ce(sx(n.k, n.w) as u128, w),
            Op::ZExt => return self.zext_e(n.a, w),
            Op::Ite if self.leaf[a as usize] > 0 => {
                let wi = n.w;
                return self.map_leaves(a, w, &|x| (sx(x, wi) as u128) & mask(w), &mut HashMap::new());
            }
            _ => {}
        }
        let (_, h) = self.iv[a as usize];
        if h < (1u128 << (n.w - 1)) {
            return self.zext_e(a, w);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: &V, aw: u32, w: u32) -> V {
        if let V::C(k) = a {
            return V::C(*k);
        }
        let e = self.e(a, aw);
        let r = self.zext_e(e, w);
        self.v(r)
    }
    pub fn sext(&mut self, a: &V, aw: u32, w: u32) -> V {
        if let V::C(k) = a {
            return V::C((sx(*k, aw) as u128) & mask(w));
        }
        let e = self.e(a, aw);
        let r = self.sext_e(e, w);
        self.v(r)
    }

    pub fn ite_e(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.kconst(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        let nc = self.n[c as usize];
        if nc.op == Op::Bin(BinOp::Xor) && nc.w == 1 && self.kconst(nc.b) == Some(1) {
            return self.ite_e(nc.a, b, a);
        }
        if w == 1 {
            match (self.kconst(a), self.kconst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not_e(c),
                (Some(1), None) => return self.bin_e(BinOp::Or, c, b),
                (Some(0), None) => {
                    let n = self.not_e(c);
                    return self.bin_e(BinOp::And, n, b);
                }
                (None, Some(0)) => return self.bin_e(BinOp::And, c, a),
                (None, Some(1)) => {
                    let n = self.not_e(c);
                    return self.bin_e(BinOp::Or, n, a);
                }
                _ => {}
            }
        }
        // nested same condition
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite_e(c, na.b, b);
        }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite_e(c, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.width(na.a) == self.width(nb.a) {
            let r = self.ite_e(c, na.a, nb.a);
            return self.zext_e(r, w);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn ite(&mut self, c: &V, w: u32, a: &V, b: &V) -> V {
        if let V::C(k) = c {
            return if *k & 1 != 0 { a.clone() } else { b.clone() };
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            if x == y {
                return a.clone();
            }
        }
        let ec = self.e(c, 1);
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        let r = self.ite_e(ec, ea, eb);
        self.v(r)
    }

    pub fn eq_e(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b {
            return self.ce(1, 1);
        }
        if self.kconst(a).is_some() {
            if self.kconst(b).is_some() {
                return self.ce(0, 1);
            }
            return self.eq_e(b, a);
        }
        let (la, ha) = self.iv[a as usize];
        let (lb, hb) = self.iv[b as usize];
        if ha < lb || hb < la {
            return self.ce(0, 1);
        }
        let na = self.n[a as usize];
        if let Some(k) = self.kconst(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not_e(a) };
            }
            if self.is_tree(a) {
                return self.map_leaves(a, 1, &|x| (x == k) as u128, &mut HashMap::new());
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.width(na.a);
                    let kk = self.ce(k, wi);
                    return self.eq_e(na.a, kk);
                }
                Op::SExt => {
                    let wi = self.width(na.a);
                    if (sx(k & mask(wi), wi) as u128) & mask(w) != k {
                        return self.ce(0, 1);
                    }
                    let kk = self.ce(k & mask(wi), wi);
                    return self.eq_e(na.a, kk);
                }
                Op::Concat => {
                    let wb = self.width(na.b);
                    let wa = self.width(na.a);
                    let kh = self.ce(k >> wb, wa);
                    let kl = self.ce(k & mask(wb), wb);
                    let x = self.eq_e(na.a, kh);
                    let y = self.eq_e(na.b, kl);
                    return self.bin_e(BinOp::And, x, y);
                }
                Op::Bin(BinOp::Add) => {
                    if let Some(k2) = self.kconst(na.b) {
                        let kk = self.ce(k.wrapping_sub(k2) & mask(w), w);
                        return self.eq_e(na.a, kk);
                    }
                }
                Op::Bin(BinOp::Xor) => {
                    if let Some(k2) = self.kconst(na.b) {
                        let kk = self.ce(k ^ k2, w);
                        return self.eq_e(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq_e(na.a, na.b);
                    }
                }
                Op::Ite => {
                    let x = self.eq_e(na.b, b);
                    let y = self.eq_e(na.c, b);
                    return self.ite_e(na.a, x, y);
                }
                _ => {}
            }
        } else {
            let nb = self.n[b as usize];
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let wi = self.width(na.a).max(self.width(nb.a));
                if wi < w {
                    let x = self.extract_e(a, 0, wi);
                    let y = self.extract_e(b, 0, wi);
                    return self.eq_e(x, y);
                }
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.width(na.a) == self.width(nb.a) {
                let x = self.eq_e(na.a, nb.a);
                let y = self.eq_e(na.b, nb.b);
                return self.bin_e(BinOp::And, x, y);
            }
        }
        let (x, y) = if a > b && self.kconst(b).is_none() { (b, a) } else { (a, b) };
        self.mk(Node { op: Op::Eq, w: 1, a: x, b: y, c: 0, k: 0 })
    }
    pub fn ult_e(&mut self, a: E, b: E) -> E {
        let (la, ha) = self.iv[a as usize];
        let (lb, hb) = self.iv[b as usize];
        if ha < lb {
            return self.ce(1, 1);
        }
        if la >= hb {
            return self.ce(0, 1);
        }
        let (ka, kb) = (self.kconst(a), self.kconst(b));
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if let Some(k) = kb {
            if self.is_tree(a) {
                return self.map_leaves(a, 1, &|x| (x < k) as u128, &mut HashMap::new());
            }
            if na.op == Op::ZExt {
                let wi = self.width(na.a);
                if k <= mask(wi) {
                    let kk = self.ce(k, wi);
                    return self.ult_e(na.a, kk);
                }
            }
            if k == 1 {
                let w = self.width(a);
                let z = self.ce(0, w);
                return self.eq_e(a, z);
            }
        }
        if let Some(k) = ka {
            if self.is_tree(b) {
                return self.map_leaves(b, 1, &|x| (k < x) as u128, &mut HashMap::new());
            }
            if nb.op == Op::ZExt {
                let wi = self.width(nb.a);
                if k <= mask(wi) {
                    let kk = self.ce(k, wi);
                    return self.ult_e(kk, nb.a);
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.width(na.a) == self.width(nb.a) {
            return self.ult_e(na.a, nb.a);
        }
        if a == b {
            return self.ce(0, 1);
        }
        self.mk(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn slt_e(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if a == b {
            return self.ce(0, 1);
        }
        let (_, ha) = self.iv[a as usize];
        let (_, hb) = self.iv[b as usize];
        let sb = 1u128 << (w - 1);
        if ha < sb && hb < sb {
            return self.ult_e(a, b);
        }
        let (la, _) = self.iv[a as usize];
        let (lb, _) = self.iv[b as usize];
        if la >= sb && hb < sb {
            return self.ce(1, 1);
        }
        if ha < sb && lb >= sb {
            return self.ce(0, 1);
        }
        if let Some(k) = self.kconst(b) {
            if self.leaf[a as usize] > 0 {
                return self.map_leaves(a, 1, &|x| (sx(x, w) < sx(k, w)) as u128, &mut HashMap::new());
            }
        }
        if let Some(k) = self.kconst(a) {
            if self.leaf[b as usize] > 0 {
                return self.map_leaves(b, 1, &|x| (sx(k, w) < sx(x, w)) as u128, &mut HashMap::new());
            }
        }
        self.mk(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn eq(&mut self, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C((x == y) as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.eq_e(x, y);
        self.v(r)
    }
    pub fn ult(&mut self, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C((x < y) as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ult_e(x, y);
        self.v(r)
    }
    pub fn slt(&mut self, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C((sx(*x, w) < sx(*y, w)) as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.slt_e(x, y);
        self.v(r)
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n[e as usize];
        if depth == 0 {
            return "..".into();
        }
        let s = |x: E| self.show(x, depth - 1);
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Sym => self.sym_names[n.a as usize].clone(),
            Op::Extract => format!("{}[{}+{}]", s(n.a), n.k, n.w),
            Op::ZExt => format!("zx{}({})", n.w, s(n.a)),
            Op::SExt => format!("sx{}({})", n.w, s(n.a)),
            Op::Ite => format!("ite({},{},{})", s(n.a), s(n.b), s(n.c)),
            Op::Bin(b) => format!("({:?} {} {})", b, s(n.a), s(n.b)),
            o => format!("({:?} {} {})", o, s(n.a), s(n.b)),
        }
    }
}

pub fn fold(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x < 0 { 1u128 } else { m }) & m
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                x as u128
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = b.min(w as u128 - 1);
            (sx(a, w) >> s) as u128
        }
    }) & m
}

/// Assignment of symbolic inputs; absent means 0.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub v: Rc<Vec<u128>>,
}
impl Model {
    pub fn get(&self, id: u32) -> u128 {
        self.v.get(id as usize).copied().unwrap_or(0)
    }
    pub fn set(&mut self, id: u32, k: u128) {
        let v = Rc::make_mut(&mut self.v);
        if v.len() <= id as usize {
            v.resize(id as usize + 1, 0);
        }
        v[id as usize] = k;
    }
}
