//! Minimal Z3 bindings and the translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn ignore(_: P, _: c_int) {}

pub enum Answer {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    fp_solver: P,
    tables: FxMap<E, Option<P>>,
    memo: Vec<P>,
    vars: FxMap<u64, P>,
    pub queries: u64,
    pub time: f64,
    pub slow: f64,
    timeout_ms: u32,
    translated: usize,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        let mut z = Z3 {
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            fp_solver: std::ptr::null_mut(),
            tables: Default::default(),
            memo: vec![],
            vars: Default::default(),
            queries: 0,
            time: 0.0,
            slow: 0.0,
            timeout_ms,
            translated: 0,
        };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(ignore));
            let mk = |c: P, logic: &str, t: u32| {
                let l = CString::new(logic).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), t);
                Z3_solver_set_params(c, s, p);
                Z3_params_dec_ref(c, p);
                s
            };
            self.solver = mk(self.ctx, "QF_BV", self.timeout_ms);
            self.fp_solver = std::ptr::null_mut();
            self.memo.clear();
            self.tables.clear();
            self.vars.clear();
            self.translated = 0;
        }
    }
    fn fps(&mut self) -> P {
        unsafe {
            if self.fp_solver.is_null() {
                let c = self.ctx;
                let s = Z3_mk_solver(c);
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms);
                Z3_solver_set_params(c, s, p);
                Z3_params_dec_ref(c, p);
                self.fp_solver = s;
            }
            self.fp_solver
        }
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            if !self.fp_solver.is_null() {
                Z3_solver_dec_ref(self.ctx, self.fp_solver);
            }
            Z3_del_context(self.ctx);
        }
    }

    fn num(&self, v: u64, w: u8) -> P {
        unsafe { Z3_mk_unsigned_int64(self.ctx, v, Z3_mk_bv_sort(self.ctx, w as c_uint)) }
    }
    /// As a bit-vector, whatever the width.
    fn bv(&mut self, a: &Arena, e: E) -> P {
        let t = self.tr(a, e);
        if a.w(e) == 1 {
            unsafe {
                let one = self.num(1, 1);
                let zero = self.num(0, 1);
                Z3_mk_ite(self.ctx, t, one, zero)
            }
        } else {
            t
        }
    }
    fn mux(&mut self, table: &[u64], w: u8, bits: &[P]) -> P {
        // bits: most significant first
        if bits.is_empty() || table.iter().all(|x| *x == table[0]) {
            return self.num(table[0], w);
        }
        let half = 1usize << (bits.len() - 1);
        if table.len() <= half {
            return self.mux(table, w, &bits[1..]);
        }
        let lo = self.mux(&table[..half], w, &bits[1..]);
        let hi = self.mux(&table[half..], w, &bits[1..]);
        unsafe { Z3_mk_ite(self.ctx, bits[0], hi, lo) }
    }
    /// Bool for width 1, bit-vector otherwise.
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.memo.get(e as usize) {
            if !p.is_null() {
                return *p;
            }
        }
        let n = *ar.n(e);
        let w = n.w;
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if w == 1 {
                        if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        self.num(n.k, w)
                    }
                }
                Op::Var => {
                    let key = n.k << 8 | w as u64;
                    match self.vars.get(&key) {
                        Some(p) => *p,
                        None => {
                            let s = CString::new(format!("v{}_{}", n.k, w)).unwrap();
                            let sort = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
                            let p = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort);
                            self.vars.insert(key, p);
                            p
                        }
                    }
                }
                Op::Ite => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    let z = self.tr(ar, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => {
                            if ar.cv(n.b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) }
                        }
                    }
                }
                Op::Eq => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    Z3_mk_eq(c, x, y)
                }
                Op::Lookup => {
                    let t = ar.tables[n.k as usize].clone();
                    let iw = ar.w(n.a);
                    let nb = {
                        let mut b = 0;
                        while (1usize << b) < t.len() {
                            b += 1;
                        }
                        b as u8
                    };
                    let mut bits: Vec<P> = vec![];
                    let idx = self.bv(ar, n.a);
                    let one = self.num(1, 1);
                    for i in (0..nb.min(iw)).rev() {
                        bits.push(Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, idx), one));
                    }
                    // affine over GF(2)?
                    let full = t.len() == 1usize << nb;
                    let affine = full && (0..t.len()).all(|i| {
                        let mut v = t[0];
                        for b in 0..nb {
                            if i >> b & 1 == 1 {
                                v ^= t[1 << b] ^ t[0];
                            }
                        }
                        v == t[i]
                    });
                    if affine {
                        let mut r = self.num(t[0], w);
                        let z = self.num(0, w);
                        for (j, bit) in bits.iter().enumerate() {
                            let b = bits.len() - 1 - j;
                            let k = self.num(t[1 << b] ^ t[0], w);
                            r = Z3_mk_bvxor(c, r, Z3_mk_ite(c, *bit, k, z));
                        }
                        r
                    } else {
                        let r = self.mux(&t, w, &bits);
                        if w == 1 { Z3_mk_eq(c, r, one) } else { r }
                    }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq => {
                    let x = self.fp(ar, n.a);
                    let y = self.fp(ar, n.b);
                    let rm = Z3_mk_fpa_rne(c);
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rm, x, y)),
                        Op::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rm, x, y)),
                        Op::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rm, x, y)),
                        Op::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rm, x, y)),
                        Op::FLt => Z3_mk_fpa_lt(c, x, y),
                        Op::FLe => Z3_mk_fpa_leq(c, x, y),
                        _ => Z3_mk_fpa_eq(c, x, y),
                    }
                }
                Op::FSqrt | Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::UIToFP | Op::SIToFP => {
                    let f = self.fp(ar, e);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FPToUISat | Op::FPToSISat => {
                    let x = self.fp(ar, n.a);
                    let s = Z3_mk_fpa_sort_64(c);
                    let uns = n.op == Op::FPToUISat;
                    let (lo, hi, lov, hiv) = if uns {
                        (0.0, 2f64.powi(w as i32), 0, if w == 64 { u64::MAX } else { (1u64 << w) - 1 })
                    } else {
                        let l = 2f64.powi(w as i32 - 1);
                        (-l, l, 1u64 << (w - 1), (1u64 << (w - 1)) - 1)
                    };
                    let lof = Z3_mk_fpa_numeral_double(c, lo, s);
                    let hif = Z3_mk_fpa_numeral_double(c, hi, s);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let conv = if uns { Z3_mk_fpa_to_ubv(c, rtz, x, w as c_uint) } else { Z3_mk_fpa_to_sbv(c, rtz, x, w as c_uint) };
                    let z = self.num(0, w);
                    let lv = self.num(lov, w);
                    let hv = self.num(hiv, w);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hif, x), hv, conv);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, lof), lv, r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), z, r)
                }
                Op::Ctlz => {
                    let x = self.bv(ar, n.a);
                    let aw = ar.w(n.a);
                    let mut r = self.num(aw as u64, w);
                    let one = self.num(1, 1);
                    for i in 0..aw {
                        let k = self.num((aw - 1 - i) as u64, w);
                        r = Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, x), one), k, r);
                    }
                    r
                }
                Op::Ctpop => {
                    let x = self.bv(ar, n.a);
                    let aw = ar.w(n.a);
                    let mut r = self.num(0, w);
                    let one = self.num(1, 1);
                    let k1 = self.num(1, w);
                    for i in 0..aw {
                        r = Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, x), one), Z3_mk_bvadd(c, r, k1), r);
                    }
                    r
                }
                _ => {
                    let x = self.bv(ar, n.a);
                    let y = if n.b != 0 { self.bv(ar, n.b) } else { std::ptr::null_mut() };
                    let r = match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::Extract => Z3_mk_extract(c, n.k as c_uint + w as c_uint - 1, n.k as c_uint, x),
                        Op::SExt => Z3_mk_sign_ext(c, (w - ar.w(n.a)) as c_uint, x),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        o => panic!("translate {:?}", o),
                    };
                    if w == 1 && !matches!(n.op, Op::Ult | Op::Slt) {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
            }
        };
        if self.memo.len() <= e as usize {
            self.memo.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        self.memo[e as usize] = r;
        self.translated += 1;
        r
    }
    fn fp(&mut self, ar: &Arena, e: E) -> P {
        let c = self.ctx;
        let n = *ar.n(e);
        unsafe {
            let s = Z3_mk_fpa_sort_64(c);
            let rm = Z3_mk_fpa_rne(c);
            match n.op {
                Op::Const => Z3_mk_fpa_numeral_double(c, f64::from_bits(n.k), s),
                Op::UIToFP => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_fpa_to_fp_unsigned(c, rm, x, s)
                }
                Op::SIToFP => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_fpa_to_fp_signed(c, rm, x, s)
                }
                Op::FSqrt => {
                    let x = self.fp(ar, n.a);
                    Z3_mk_fpa_sqrt(c, rm, x)
                }
                Op::FRound => {
                    let x = self.fp(ar, n.a);
                    Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x)
                }
                Op::FTrunc | Op::FFloor | Op::FCeil => {
                    let x = self.fp(ar, n.a);
                    let r = match n.op {
                        Op::FTrunc => Z3_mk_fpa_rtz(c),
                        Op::FFloor => Z3_mk_fpa_rtn(c),
                        _ => Z3_mk_fpa_rtp(c),
                    };
                    Z3_mk_fpa_round_to_integral(c, r, x)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let x = self.fp(ar, n.a);
                    let y = self.fp(ar, n.b);
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                        _ => Z3_mk_fpa_div(c, rm, x, y),
                    }
                }
                Op::Ite => {
                    let k = self.tr(ar, n.a);
                    let x = self.fp(ar, n.b);
                    let y = self.fp(ar, n.c);
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let x = self.tr(ar, e);
                    Z3_mk_fpa_to_fp_bv(c, x, s)
                }
            }
        }
    }

    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Answer {
        if self.translated > 400_000 {
            self.close();
            self.open();
        }
        let t0 = std::time::Instant::now();
        let mut seen;
        // Floating-point conditions over few bits become decision diagrams
        let mut tables: Vec<Option<P>> = vec![];
        let mut fp = false;
        for e in cs {
            seen = Default::default();
            let t = if ar.has_fp(*e, &mut seen) { self.tabulate(ar, *e) } else { None };
            seen = Default::default();
            fp |= t.is_none() && ar.has_fp(*e, &mut seen);
            tables.push(t);
        }
        let solver = if fp { self.fps() } else { self.solver };
        let mut vars: Vec<(u32, u8)> = vec![];
        {
            let mut seen: FxMap<E, ()> = Default::default();
            let mut st: Vec<E> = cs.to_vec();
            while let Some(e) = st.pop() {
                if seen.insert(e, ()).is_some() {
                    continue;
                }
                let n = ar.n(e);
                if n.op == Op::Var {
                    vars.push((n.k as u32, n.w));
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        st.push(x);
                    }
                }
            }
        }
        let c = self.ctx;
        let r = unsafe {
            Z3_solver_push(c, solver);
            for (e, t) in cs.iter().zip(tables) {
                let p = match t {
                    Some(t) => t,
                    None => self.tr(ar, *e),
                };
                Z3_solver_assert(c, solver, p);
            }
            let err = Z3_get_error_code(c);
            let r = Z3_solver_check(c, solver);
            let ans = if err != 0 {
                eprintln!("z3 error {}", err);
                Answer::Unknown
            } else if r == 1 {
                let m = Z3_solver_get_model(c, solver);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for (k, w) in vars {
                    let key = (k as u64) << 8 | w as u64;
                    let vp = self.vars[&key];
                    let t = if w == 1 { Z3_mk_ite(c, vp, self.num(1, 1), self.num(0, 1)) } else { vp };
                    let mut o: P = std::ptr::null_mut();
                    let mut v = 0u64;
                    if Z3_model_eval(c, m, t, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut v) {
                        out.push((k, v));
                    }
                }
                Z3_model_dec_ref(c, m);
                Answer::Sat(out)
            } else if r == -1 {
                Answer::Unsat
            } else {
                Answer::Unknown
            };
            Z3_solver_pop(c, solver, 1);
            ans
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.slow {
            self.slow = dt;
        }
        if dt > 2.0 && std::env::var("USYM_SLOW").is_ok() {
            eprintln!("slow query {:.1}s:", dt);
            for e in cs {
                eprintln!("   {}", ar.show(*e, 8));
            }
        }
        r
    }
    #[allow(dead_code)]
    pub fn dump(&mut self) -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned() }
    }
}

impl Z3 {
    /// The condition as a function of the bits of its variables, found by evaluating it for all of
    /// their values. None if there are too many.
    fn tabulate(&mut self, ar: &mut Arena, e: E) -> Option<P> {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let t = self.tabulate_now(ar, e);
        self.tables.insert(e, t);
        t
    }

    fn tabulate_now(&mut self, ar: &mut Arena, e: E) -> Option<P> {
        const BITS: u32 = 20;
        if ar.w(e) != 1 {
            return None;
        }
        let sup = ar.support(e);
        let mut vars: Vec<(u32, u8, E)> = vec![];
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            let n = ar.n(x);
            if n.op == Op::Var {
                vars.push((n.k as u32, n.w, x));
            }
            for y in [n.a, n.b, n.c] {
                if y != 0 {
                    st.push(y);
                }
            }
        }
        vars.sort();
        let bits: u32 = vars.iter().map(|v| v.1 as u32).sum();
        if bits > BITS || vars.len() != sup.len() || vars.is_empty() || seen.len() > 2000 {
            return None;
        }
        // the bits of an assignment, the most significant one of the first variable first
        let top = vars.iter().map(|v| v.0).max().unwrap() as usize + 1;
        let mut model = vec![0u64; top];
        let mut row: Vec<u32> = Vec::with_capacity(1 << bits);
        for i in 0..1u64 << bits {
            let mut sh = bits;
            for v in &vars {
                sh -= v.1 as u32;
                model[v.0 as usize] = i >> sh & ((1u64 << v.1) - 1);
            }
            row.push(ar.eval(e, &model) as u32 & 1);
        }
        let c = self.ctx;
        unsafe {
            // merge neighbours, from the least significant bit up
            let mut ast: Vec<P> = vec![Z3_mk_false(c), Z3_mk_true(c)];
            for v in vars.iter().rev() {
                let p = self.tr(ar, v.2);
                for b in 0..v.1 as u32 {
                    let bit = if v.1 == 1 { p } else { Z3_mk_eq(c, Z3_mk_extract(c, b, b, p), self.num(1, 1)) };
                    let mut made: FxMap<u64, u32> = Default::default();
                    let mut next = Vec::with_capacity(row.len() / 2);
                    for k in row.chunks(2) {
                        let id = if k[0] == k[1] {
                            k[0]
                        } else {
                            let key = (k[0] as u64) << 32 | k[1] as u64;
                            match made.get(&key) {
                                Some(x) => *x,
                                None => {
                                    ast.push(Z3_mk_ite(c, bit, ast[k[1] as usize], ast[k[0] as usize]));
                                    made.insert(key, ast.len() as u32 - 1);
                                    ast.len() as u32 - 1
                                }
                            }
                        };
                        next.push(id);
                    }
                    row = next;
                }
            }
            self.translated += ast.len();
            Some(ast[row[0] as usize])
        }
    }

    /// Forget all translations (a new arena follows).
    pub fn reset(&mut self) {
        self.close();
        self.open();
    }
}
