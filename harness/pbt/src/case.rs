//! One generated case: a flat, printable, shrinkable record shared by all properties.

use apf_ops::hist::Instr;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Case {
    /// Property-specific operation index.
    pub op: u8,
    /// Format (index into the table), and second format for conversions.
    pub f: u8,
    pub g: u8,
    /// Rounding mode.
    pub rm: u8,
    pub a: u128,
    pub b: u128,
    pub c: u128,
    pub n: i64,
    pub k: i64,
    pub s: String,
    pub prog: Vec<Instr>,
}

impl Case {
    pub fn hash(&self) -> u64 {
        fn mix(h: u64, x: u64) -> u64 {
            let z = (h ^ x).wrapping_mul(0x9fb21c651e98df25);
            z ^ (z >> 32)
        }
        let mut h = mix(0x1234567, self.op as u64 | (self.f as u64) << 8 | (self.g as u64) << 16 | (self.rm as u64) << 24);
        for x in [self.a, self.b, self.c] {
            h = mix(h, x as u64);
            h = mix(h, (x >> 64) as u64);
        }
        h = mix(h, self.n as u64);
        h = mix(h, self.k as u64);
        for b in self.s.bytes() {
            h = mix(h, b as u64 + 1);
        }
        for i in &self.prog {
            h = mix(h, u64::from_le_bytes([i.op, i.dst, i.a, i.b, i.c, i.rm, 1, 0]));
            h = mix(h, i.n as u64);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^ (h >> 32)
    }

    pub fn to_line(&self) -> String {
        let mut s = format!(
            "op={} f={} g={} rm={} a={:#x} b={:#x} c={:#x} n={} k={} s={}",
            self.op, self.f, self.g, self.rm, self.a, self.b, self.c, self.n, self.k, hex(&self.s)
        );
        if !self.prog.is_empty() {
            s.push_str(" prog=");
            for (j, i) in self.prog.iter().enumerate() {
                if j > 0 {
                    s.push(';');
                }
                s.push_str(&format!("{},{},{},{},{},{},{}", i.op, i.dst, i.a, i.b, i.c, i.rm, i.n));
            }
        }
        s
    }

    pub fn from_line(l: &str) -> Option<Case> {
        let mut c = Case::default();
        for kv in l.split_whitespace() {
            let (k, v) = kv.split_once('=')?;
            let h = |v: &str| u128::from_str_radix(v.trim_start_matches("0x"), 16).ok();
            match k {
                "op" => c.op = v.parse().ok()?,
                "f" => c.f = v.parse().ok()?,
                "g" => c.g = v.parse().ok()?,
                "rm" => c.rm = v.parse().ok()?,
                "a" => c.a = h(v)?,
                "b" => c.b = h(v)?,
                "c" => c.c = h(v)?,
                "n" => c.n = v.parse().ok()?,
                "k" => c.k = v.parse().ok()?,
                "s" => c.s = unhex(v)?,
                "prog" => {
                    for i in v.split(';') {
                        let x: Vec<i64> = i.split(',').map(|t| t.parse().ok()).collect::<Option<_>>()?;
                        if x.len() != 7 {
                            return None;
                        }
                        c.prog.push(Instr {
                            op: x[0] as u8,
                            dst: x[1] as u8,
                            a: x[2] as u8,
                            b: x[3] as u8,
                            c: x[4] as u8,
                            rm: x[5] as u8,
                            n: x[6] as i32,
                        });
                    }
                }
                _ => return None,
            }
        }
        Some(c)
    }

    /// Size for shrinking: smaller is simpler.
    pub fn weight(&self) -> u64 {
        let w = |x: u128| (x.count_ones() as u64) * 4 + (128 - x.leading_zeros() as u64);
        w(self.a)
            + w(self.b)
            + w(self.c)
            + w(self.n.unsigned_abs() as u128)
            + w(self.k.unsigned_abs() as u128)
            + self.s.len() as u64 * 64
            + self.s.bytes().filter(|&b| b != b'0').count() as u64 * 8
            + self.prog.len() as u64 * 4096
            + self.prog.iter().map(|i| i.op as u64 + i.n.unsigned_abs().min(256) as u64 + i.rm as u64).sum::<u64>()
            + self.rm as u64
    }

    /// Simpler candidates.
    pub fn shrinks(&self) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        let me = self;
        let mut push = |f: &dyn Fn(&mut Case)| {
            let mut c = me.clone();
            f(&mut c);
            if c != *me {
                v.push(c);
            }
        };
        for i in 0..self.prog.len() {
            push(&|c| {
                c.prog.remove(i);
            });
        }
        for i in 0..self.prog.len() {
            push(&|c| c.prog[i].n = 0);
            push(&|c| c.prog[i].n /= 2);
            push(&|c| c.prog[i].rm = 0);
            push(&|c| c.prog[i].op = 0);
        }
        if !self.s.is_empty() && self.s.is_ascii() {
            let n = self.s.len();
            let mut w = n;
            while w >= 1 {
                let mut i = 0;
                while i + w <= n {
                    push(&|c| {
                        c.s = format!("{}{}", &me.s[..i], &me.s[i + w..]);
                    });
                    i += w;
                }
                w /= 2;
            }
            for i in 0..n.min(200) {
                for d in [b'0', b'1'] {
                    if self.s.as_bytes()[i].is_ascii_digit() && self.s.as_bytes()[i] > d {
                        push(&|c| {
                            let mut b = me.s.clone().into_bytes();
                            b[i] = d;
                            c.s = String::from_utf8(b).unwrap();
                        });
                    }
                }
            }
        }
        if self.rm != 0 {
            push(&|c| c.rm = 0);
        }
        for which in 0..3usize {
            let get = |c: &Case| [c.a, c.b, c.c][which];
            let set = |c: &mut Case, x: u128| match which {
                0 => c.a = x,
                1 => c.b = x,
                _ => c.c = x,
            };
            let x = get(self);
            if x == 0 {
                continue;
            }
            push(&|c| set(c, 0));
            // clear blocks of bits, then single bits
            let mut w = 64;
            while w >= 1 {
                let m: u128 = (1 << w) - 1;
                let mut i = 0;
                while i < 128 {
                    if x >> i & m != 0 {
                        push(&|c| set(c, x & !(m << i)));
                    }
                    i += w;
                }
                w /= 2;
            }
            push(&|c| set(c, x - 1));
        }
        for which in 0..2usize {
            let x = if which == 0 { self.n } else { self.k };
            let set = |c: &mut Case, x: i64| {
                if which == 0 {
                    c.n = x
                } else {
                    c.k = x
                }
            };
            if x != 0 {
                push(&|c| set(c, 0));
                push(&|c| set(c, x / 2));
                push(&|c| set(c, x - x.signum()));
            }
        }
        v
    }
}

fn hex(s: &str) -> String {
    let mut r = String::from("'");
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' {
            r.push(b as char);
        } else {
            r.push_str(&format!("%{:02x}", b));
        }
    }
    r.push('\'');
    r
}

fn unhex(s: &str) -> Option<String> {
    let b = s.strip_prefix('\'')?.strip_suffix('\'')?.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            r.push(u8::from_str_radix(std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?, 16).ok()?);
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(r).ok()
}
