//! Random differential test: simplified expressions against direct evaluation, and the solver
//! translation against evaluation.
use crate::expr::*;
use crate::z3::{Answer, Z3};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

fn mask(v: u64, w: u8) -> u64 {
    crate::ir::mask64(v, w as u32)
}
fn sx(v: u64, w: u8) -> i64 {
    ((v << (64 - w as u32)) as i64) >> (64 - w as u32)
}

/// Value of interest for width w.
fn konst(r: &mut Rng, w: u8) -> u64 {
    let v = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << (w - 1),
        4 => (1u64 << r.below(w as u64)).wrapping_sub(1),
        5 => 1u64 << r.below(w as u64),
        6 => r.below(10),
        _ => r.next(),
    };
    mask(v, w)
}

const NV: usize = 6;
const WIDTHS: [u8; 7] = [1, 8, 16, 20, 32, 33, 64];

// Each generated node carries its value under each of the random models, computed from the
// operands' values without the expression arena.
struct Gen {
    e: E,
    w: u8,
    v: Vec<u64>,
}

pub fn run(n: u64) -> bool {
    let mut r = Rng(0x9E3779B97F4A7C15);
    let mut z = Z3::new(5000);
    let mut bad = 0;
    let mut sat = 0;
    let mut unsat = 0;
    let mut unknown = 0;
    for round in 0..n {
        let mut ar = Arena::new();
        let models: Vec<Vec<u64>> = (0..6).map(|_| (0..NV).map(|i| konst(&mut r, WIDTHS[i + 1])).collect()).collect();
        let mut pool: Vec<Gen> = vec![];
        for i in 0..NV {
            let w = WIDTHS[i + 1];
            let e = ar.var(i as u64, w);
            pool.push(Gen { e, w, v: models.iter().map(|m| m[i]).collect() });
        }
        for _ in 0..60 {
            let pick = |r: &mut Rng, pool: &Vec<Gen>| r.below(pool.len() as u64) as usize;
            let i = pick(&mut r, &pool);
            let w = pool[i].w;
            let same: Vec<usize> = (0..pool.len()).filter(|j| pool[*j].w == w).collect();
            let (be, bv) = if r.below(3) == 0 {
                let k = konst(&mut r, w);
                (ar.c(k, w), vec![k; models.len()])
            } else {
                let j = same[r.below(same.len() as u64) as usize];
                (pool[j].e, pool[j].v.clone())
            };
            let ae = pool[i].e;
            let av = pool[i].v.clone();
            let (ae, av, be, bv) = if r.below(4) == 0 { (be, bv, ae, av) } else { (ae, av, be, bv) };
            let two = |f: &dyn Fn(u64, u64) -> u64, w: u8| -> Vec<u64> { av.iter().zip(&bv).map(|(a, b)| mask(f(*a, *b), w)).collect() };
            let wm = w as u64;
            let g = match r.below(30) {
                0 | 1 => Gen { e: ar.add(ae, be), w, v: two(&|a, b| a.wrapping_add(b), w) },
                2 | 3 => Gen { e: ar.sub(ae, be), w, v: two(&|a, b| a.wrapping_sub(b), w) },
                4 => Gen { e: ar.mul(ae, be), w, v: two(&|a, b| a.wrapping_mul(b), w) },
                5 => {
                    if ar.cv(be) == Some(0) { continue; }
                    Gen { e: ar.udiv(ae, be), w, v: two(&|a, b| if b == 0 { u64::MAX } else { a / b }, w) }
                }
                6 => {
                    if ar.cv(be) == Some(0) { continue; }
                    Gen { e: ar.urem(ae, be), w, v: two(&|a, b| if b == 0 { a } else { a % b }, w) }
                }
                7 => Gen { e: ar.shl(ae, be), w, v: two(&|a, b| if b >= wm { 0 } else { a << b }, w) },
                8 => Gen { e: ar.lshr(ae, be), w, v: two(&|a, b| if b >= wm { 0 } else { a >> b }, w) },
                9 => Gen { e: ar.ashr(ae, be), w, v: two(&|a, b| (sx(a, w) >> b.min(63)) as u64, w) },
                10 | 11 => Gen { e: ar.and(ae, be), w, v: two(&|a, b| a & b, w) },
                12 => Gen { e: ar.or(ae, be), w, v: two(&|a, b| a | b, w) },
                13 => Gen { e: ar.xor(ae, be), w, v: two(&|a, b| a ^ b, w) },
                14 => Gen { e: ar.not(ae), w, v: two(&|a, _| !a, w) },
                15 => {
                    let lo = r.below(wm) as u8;
                    let n = 1 + r.below((w - lo) as u64) as u8;
                    Gen { e: ar.extract(ae, lo, n), w: n, v: two(&|a, _| a >> lo, n) }
                }
                16 => {
                    let nw = *WIDTHS.iter().filter(|x| **x >= w).nth(r.below(WIDTHS.iter().filter(|x| **x >= w).count() as u64) as usize).unwrap();
                    Gen { e: ar.zext(ae, nw), w: nw, v: av.clone() }
                }
                17 => {
                    let nw = *WIDTHS.iter().filter(|x| **x >= w).nth(r.below(WIDTHS.iter().filter(|x| **x >= w).count() as u64) as usize).unwrap();
                    Gen { e: ar.sext(ae, nw), w: nw, v: two(&|a, _| sx(a, w) as u64, nw) }
                }
                18 => {
                    let k = pick(&mut r, &pool);
                    if pool[k].w + w > 64 { continue; }
                    let lw = pool[k].w;
                    let lv = pool[k].v.clone();
                    let le = pool[k].e;
                    Gen { e: ar.concat(ae, le), w: w + lw, v: av.iter().zip(&lv).map(|(a, b)| a << lw | b).collect() }
                }
                19 => Gen { e: ar.eq(ae, be), w: 1, v: two(&|a, b| (a == b) as u64, 1) },
                20 => Gen { e: ar.ult(ae, be), w: 1, v: two(&|a, b| (a < b) as u64, 1) },
                21 => Gen { e: ar.slt(ae, be), w: 1, v: two(&|a, b| (sx(a, w) < sx(b, w)) as u64, 1) },
                22 | 23 => {
                    let conds: Vec<usize> = (0..pool.len()).filter(|j| pool[*j].w == 1).collect();
                    if conds.is_empty() { continue; }
                    let c = conds[r.below(conds.len() as u64) as usize];
                    let cv = pool[c].v.clone();
                    let ce = pool[c].e;
                    Gen { e: ar.ite(ce, ae, be), w, v: (0..av.len()).map(|i| if cv[i] == 1 { av[i] } else { bv[i] }).collect() }
                }
                24 => {
                    if ar.cv(be) == Some(0) || w == 1 { continue; }
                    Gen { e: ar.fun(Op::Ctlz, ae, w), w, v: two(&|a, _| (a.leading_zeros() - (64 - w as u32)) as u64, w) }
                }
                25 if w == 1 => {
                    // one step of a bitwise checksum
                    let k = r.next() & 0xffff_ffff;
                    let (p, q) = if r.below(2) == 0 { (k, 0) } else { (0, k) };
                    let (pe, qe) = (ar.c(p, 32), ar.c(q, 32));
                    Gen { e: ar.ite(ae, pe, qe), w: 32, v: av.iter().map(|a| if *a == 1 { p } else { q }).collect() }
                }
                26 | 27 | 28 => {
                    // table lookup, mostly affine
                    if w < 8 { continue; }
                    let x = ar.extract(ae, 0, 8);
                    let cols: Vec<u64> = (0..9).map(|_| r.next() & 0xffff_ffff).collect();
                    let affine = r.below(4) != 0;
                    let t: Vec<u64> = (0..256usize)
                        .map(|i| {
                            let mut v = if r.below(2) == 0 || affine { cols[8] } else { 0 };
                            for b in 0..8 { if i >> b & 1 == 1 { v ^= cols[b]; } }
                            v
                        })
                        .collect();
                    let id = ar.table((r.next(), round, 0, 0), || t.clone());
                    let e = ar.lookup(id, x, 32);
                    Gen { e, w: 32, v: av.iter().map(|a| t[*a as usize & 255]).collect() }
                }
                _ => {
                    if w == 1 { continue; }
                    Gen { e: ar.fun(Op::Ctpop, ae, w), w, v: two(&|a, _| a.count_ones() as u64, w) }
                }
            };
            for (k, m) in models.iter().enumerate() {
                let got = ar.eval(g.e, m);
                if got != g.v[k] || ar.w(g.e) != g.w {
                    println!("round {}: {} = {:#x} (w{}), expected {:#x} (w{}) under {:x?}", round, ar.show(g.e, 6), got, ar.w(g.e), g.v[k], g.w, m);
                    bad += 1;
                }
                let nd = ar.n(g.e);
                if got < nd.lo || got > nd.hi || got & nd.kz != 0 || got & nd.ko != nd.ko {
                    println!("round {}: bounds of {} are [{:#x},{:#x}] z{:#x} o{:#x}; value {:#x}", round, ar.show(g.e, 6), nd.lo, nd.hi, nd.kz, nd.ko, got);
                    bad += 1;
                }
            }
            if bad > 5 {
                return false;
            }
            pool.push(g);
        }
        // translation: an expression equated with its value under a model is satisfiable, and any
        // model returned satisfies it by evaluation
        z.reset();
        for _ in 0..2 {
            let g = &pool[r.below(pool.len() as u64) as usize];
            let mi = r.below(models.len() as u64) as usize;
            let mut cs = vec![];
            let k = ar.c(g.v[mi], g.w);
            cs.push(ar.eq(g.e, k));
            let fix = r.below(2) == 0;
            if fix {
                // with the variables fixed, the opposite must be unsatisfiable
                cs[0] = ar.not(cs[0]);
                for i in 0..NV {
                    let v = ar.var(i as u64, WIDTHS[i + 1]);
                    let k = ar.c(models[mi][i], WIDTHS[i + 1]);
                    cs.push(ar.eq(v, k));
                }
            }
            if cs.iter().any(|c| ar.cv(*c) == Some(0)) {
                if !fix {
                    println!("round {}: folded to false", round);
                    bad += 1;
                }
                continue;
            }
            match z.check(&mut ar, &cs) {
                Answer::Sat(mv) => {
                    sat += 1;
                    let mut v = vec![0; NV];
                    for (k, x) in mv {
                        v[k as usize] = x;
                    }
                    if fix {
                        println!("round {}: solver disagrees with evaluation", round);
                        bad += 1;
                    }
                    for c in &cs {
                        if ar.eval(*c, &v) != 1 {
                            println!("round {}: solver model does not satisfy {}", round, ar.show(*c, 6));
                            bad += 1;
                        }
                    }
                }
                Answer::Unsat => {
                    unsat += 1;
                    if !fix {
                        println!("round {}: solver says unsat: {}", round, ar.show(cs[0], 6));
                        bad += 1;
                    }
                }
                Answer::Unknown => unknown += 1,
            }
        }
    }
    println!("selftest: {} rounds, sat {} unsat {} unknown {}, {} mismatches", n, sat, unsat, unknown, bad);
    bad == 0
}
