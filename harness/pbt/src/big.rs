//! Arbitrary-precision unsigned integers (little-endian u64 limbs, no leading zeros),
//! for the decimal models and double-double error bounds.

use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Big(pub Vec<u64>);

impl Big {
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn from(x: u128) -> Big {
        let mut b = Big(vec![x as u64, (x >> 64) as u64]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bitlen(&self) -> i64 {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() as i64 * 64 - x.leading_zeros() as i64,
        }
    }
    pub fn bit(&self, i: i64) -> bool {
        i >= 0 && ((i / 64) as usize) < self.0.len() && self.0[(i / 64) as usize] >> (i % 64) & 1 != 0
    }
    pub fn u128(&self) -> u128 {
        assert!(self.0.len() <= 2, "model: Big too wide");
        self.0.first().copied().unwrap_or(0) as u128 | (self.0.get(1).copied().unwrap_or(0) as u128) << 64
    }
    pub fn trailing_zeros(&self) -> i64 {
        for (i, &x) in self.0.iter().enumerate() {
            if x != 0 {
                return i as i64 * 64 + x.trailing_zeros() as i64;
            }
        }
        0
    }
    pub fn shl(&self, s: i64) -> Big {
        assert!(s >= 0);
        if self.is_zero() {
            return Big::zero();
        }
        let (w, b) = ((s / 64) as usize, (s % 64) as u32);
        let mut r = vec![0u64; w];
        let mut c = 0;
        for &x in &self.0 {
            r.push(x << b | c);
            c = if b == 0 { 0 } else { x >> (64 - b) };
        }
        r.push(c);
        let mut r = Big(r);
        r.trim();
        r
    }
    pub fn shr(&self, s: i64) -> (Big, bool) {
        assert!(s >= 0);
        let (w, b) = ((s / 64) as usize, (s % 64) as u32);
        if w >= self.0.len() {
            return (Big::zero(), !self.is_zero());
        }
        let mut lost = self.0[..w].iter().any(|&x| x != 0);
        let mut r = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let hi = self.0.get(i + 1).copied().unwrap_or(0);
            r.push(if b == 0 { self.0[i] } else { self.0[i] >> b | hi << (64 - b) });
        }
        if b != 0 {
            lost |= self.0[w] << (64 - b) != 0;
        }
        let mut r = Big(r);
        r.trim();
        (r, lost)
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            let s = self.0.get(i).copied().unwrap_or(0) as u128 + o.0.get(i).copied().unwrap_or(0) as u128 + c;
            r.push(s as u64);
            c = s >> 64;
        }
        r.push(c as u64);
        let mut r = Big(r);
        r.trim();
        r
    }
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Vec::with_capacity(self.0.len());
        let mut c = false;
        assert!(o.0.len() <= self.0.len(), "model: Big sub underflow");
        for i in 0..self.0.len() {
            let (x, c1) = self.0[i].overflowing_sub(o.0.get(i).copied().unwrap_or(0));
            let (y, c2) = x.overflowing_sub(c as u64);
            r.push(y);
            c = c1 | c2;
        }
        assert!(!c, "model: Big sub underflow");
        let mut r = Big(r);
        r.trim();
        r
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, &x) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &y) in o.0.iter().enumerate() {
                let t = x as u128 * y as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        let mut r = Big(r);
        r.trim();
        r
    }
    pub fn mul_small_add(&mut self, m: u64, a: u64) {
        let mut c = a as u128;
        for x in self.0.iter_mut() {
            let t = *x as u128 * m as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        if c != 0 {
            self.0.push(c as u64);
        }
    }
    /// In-place division by a small value; returns the remainder.
    pub fn div_small(&mut self, d: u64) -> u64 {
        let mut r = 0u128;
        for x in self.0.iter_mut().rev() {
            let t = r << 64 | *x as u128;
            *x = (t / d as u128) as u64;
            r = t % d as u128;
        }
        self.trim();
        r as u64
    }
    pub fn pow5(mut n: u64) -> Big {
        let mut r = Big::from(1);
        let mut b = Big::from(5);
        while n != 0 {
            if n & 1 != 0 {
                r = r.mul(&b);
            }
            n >>= 1;
            if n != 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn from_decimal(digits: &[u8]) -> Big {
        let mut r = Big::zero();
        for ch in digits.chunks(18) {
            let mut v = 0u64;
            for &d in ch {
                v = v * 10 + (d & 15) as u64; // digit values or ASCII digits
            }
            if r.is_zero() {
                r = Big::from(v as u128);
            } else {
                r.mul_small_add(10u64.pow(ch.len() as u32), v);
            }
        }
        r
    }
    pub fn to_decimal(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut x = self.clone();
        while !x.is_zero() {
            parts.push(x.div_small(10_000_000_000_000_000_000));
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s.push_str(&format!("{:019}", p));
        }
        s
    }
    /// Long division (Knuth's algorithm D on 32-bit digits): (quotient, remainder).
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        let s = (64 - d.bitlen() % 64) % 64;
        let (s, extra) = (s % 32, s / 32); // top 32-bit digit normalised
        let _ = extra;
        let to32 = |b: &Big| {
            let mut v: Vec<u32> = b.0.iter().flat_map(|&x| [x as u32, (x >> 32) as u32]).collect();
            while v.last() == Some(&0) {
                v.pop();
            }
            v
        };
        let v = to32(&d.shl(s));
        let mut u = to32(&self.shl(s));
        let n = v.len();
        if n == 1 {
            let mut q = self.clone();
            let r = q.div_small(d.0[0]);
            return (q, Big::from(r as u128));
        }
        u.push(0);
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let b = 1u64 << 32;
        for j in (0..=m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= b || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= b {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = (t < 0) as i64;
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        let to64 = |v: &[u32]| {
            let mut r = Big(v.chunks(2).map(|c| c[0] as u64 | (c.get(1).copied().unwrap_or(0) as u64) << 32).collect());
            r.trim();
            r
        };
        (to64(&q), to64(&u[..n]).shr(s).0)
    }
}
