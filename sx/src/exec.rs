//! Path-wise symbolic execution of the IR. Symbolic branches fork; every fork is decided by a
//! solver query on the path condition; assertions are decided by a query on path condition and
//! negated assertion.
use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct ObjData {
    pub bytes: Vec<u8>,
    /// parallel symbolic bytes (0 = the concrete byte counts); empty when all concrete
    pub sym: Vec<Id>,
}
#[derive(Clone)]
pub struct Slot {
    pub data: Rc<ObjData>,
    pub alive: bool,
    pub ro: bool,
}
const CH: usize = 64;
#[derive(Clone)]
pub struct Mem {
    pub chunks: Vec<Rc<Vec<Slot>>>,
    pub n: usize,
}
#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fix: u32,
    pub pc: u32,
    pub blk: u32,
    pub base: u32,
    pub dst: u32,
    pub normal: u32,
    pub stack: u64,
}
#[derive(Clone)]
pub enum Input {
    Sym(u32),
    Conc(u64),
}
#[derive(Clone)]
pub struct State {
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub stacks: Vec<u64>,
    pub cons: Vec<Id>,
    pub eqs: Vec<(Id, u128)>,
    pub model: Vec<u64>,
    pub inputs: Vec<Input>,
    pub widths: Vec<u8>,
    pub obs: Vec<Id>,
    pub allow_panic: bool,
    pub steps: u64,
    pub nchoose: u32,
    pub hash: u64,
    pub nchecks: u32,
    pub covers: BTreeSet<String>,
    pub tag: Vec<u8>,
    pub keys: Vec<Val>,
}
pub enum Stop {
    Done,
    Infeasible,
    Sharded,
    Panic(String),
    Limit(String),
    Error(String),
}
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Error(s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None,
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    KeyCreate,
    KeySet,
    KeyGet,
    LoadRel,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    Abort,
    Ret0,
    RetM1,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    USubSat,
    UAddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Scmp,
    Ucmp,
    IsConst,
    Arg0,
    Trap,
    Panic,
    Errno,
    GetRandom,
    Memchr,
    ReduceOr,
    ReduceAnd,
    Expect,
    SxSym,
    SxChoose,
    SxAssume,
    SxCheck,
    SxCover,
    SxObserve,
    SxAllowPanic,
    SxIsSym,
    SxTag,
    SxTier,
}

fn builtin_for(name: &str, has_body: bool) -> B {
    let n = name;
    if let Some(x) = n.strip_prefix("llvm.") {
        let p = |s: &str| x.starts_with(s);
        return if p("lifetime.") || p("assume") || p("experimental.noalias") || p("dbg.") || p("donothing") || p("prefetch") || p("invariant.") {
            B::Nop
        } else if p("memcpy.") || p("memmove.") {
            B::Memcpy
        } else if p("memset.") {
            B::Memset
        } else if p("umin.") {
            B::Umin
        } else if p("umax.") {
            B::Umax
        } else if p("smin.") {
            B::Smin
        } else if p("smax.") {
            B::Smax
        } else if p("abs.") {
            B::Abs
        } else if p("uadd.with") {
            B::UAddO
        } else if p("usub.with") {
            B::USubO
        } else if p("umul.with") {
            B::UMulO
        } else if p("sadd.with") {
            B::SAddO
        } else if p("ssub.with") {
            B::SSubO
        } else if p("smul.with") {
            B::SMulO
        } else if p("usub.sat") {
            B::USubSat
        } else if p("uadd.sat") {
            B::UAddSat
        } else if p("ctlz.") {
            B::Ctlz
        } else if p("cttz.") {
            B::Cttz
        } else if p("ctpop.") {
            B::Ctpop
        } else if p("bswap.") {
            B::Bswap
        } else if p("bitreverse.") {
            B::Bitrev
        } else if p("fshl.") {
            B::Fshl
        } else if p("fshr.") {
            B::Fshr
        } else if p("scmp.") {
            B::Scmp
        } else if p("ucmp.") {
            B::Ucmp
        } else if p("is.constant") {
            B::IsConst
        } else if p("threadlocal.address") || p("launder") || p("strip.invariant") || p("ptrmask") && false {
            B::Arg0
        } else if p("load.relative") {
            B::LoadRel
        } else if p("expect") {
            B::Expect
        } else if p("trap") || p("ubsantrap") {
            B::Trap
        } else if p("vector.reduce.or") {
            B::ReduceOr
        } else if p("vector.reduce.and") {
            B::ReduceAnd
        } else {
            B::None
        };
    }
    match n {
        "malloc" => return B::Malloc,
        "calloc" => return B::Calloc,
        "realloc" => return B::Realloc,
        "free" => return B::Free,
        "posix_memalign" => return B::Memalign,
        "memcmp" => return B::Memcmp,
        "bcmp" => return B::Bcmp,
        "strlen" => return B::Strlen,
        "memcpy" | "memmove" => return B::Memcpy,
        "memset" => return B::Memset,
        "memchr" => return B::Memchr,
        "abort" | "_exit" | "exit" => return B::Abort,
        "__errno_location" => return B::Errno,
        "getrandom" | "syscall" => return B::GetRandom,
        "write" | "writev" | "pthread_self" | "getenv" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" => return B::Ret0,
        "pthread_key_create" => return B::KeyCreate,
        "pthread_setspecific" => return B::KeySet,
        "pthread_getspecific" => return B::KeyGet,
        "sx_sym" => return B::SxSym,
        "sx_choose" => return B::SxChoose,
        "sx_assume" => return B::SxAssume,
        "sx_check" => return B::SxCheck,
        "sx_cover" => return B::SxCover,
        "sx_observe" => return B::SxObserve,
        "sx_allow_panic" => return B::SxAllowPanic,
        "sx_is_sym" => return B::SxIsSym,
        "sx_tag" => return B::SxTag,
        "sx_tier" => return B::SxTier,
        _ => {}
    }
    // the panic machinery: a path that gets here has panicked
    let panic = n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("9panicking14panic_nounwind")
        || n.contains("9panicking15begin_panic")
        || n.contains("9panicking20rust_panic_with_hook")
        || n.contains("18handle_alloc_error")
        || n.contains("9panicking16panic_in_cleanup")
        || n.contains("9panicking19panic_cannot_unwind");
    if panic {
        return B::Panic;
    }
    let _ = has_body;
    B::None
}

pub struct Violation {
    pub check: String,
    pub detail: String,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
    pub tag: String,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub checks: u32,
}
#[derive(Default)]
pub struct CheckStat {
    pub reached: u64,
    pub proved: u64,
    pub trivially: u64,
    pub failed: u64,
}
pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_secs: f64,
    pub max_paths: u64,
    pub shard: (u64, u64),
    pub shard_depth: u32,
    pub nsamples: usize,
    pub max_viol: u64,
    pub tier: u64,
    pub grace: f64,
    pub trace: bool,
}
pub struct Exec {
    pub m: Module,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub bi: Vec<B>,
    pub ar: Arena,
    pub solver: Solver,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub syms: FxMap<(u32, u8), u32>,
    pub sym_w: Vec<u8>,
    pub visited: Vec<Vec<bool>>,
    pub viols: Vec<Violation>,
    pub checks: BTreeMap<String, CheckStat>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub paths: u64,
    pub infeasible: u64,
    pub panics_allowed: u64,
    pub forks: u64,
    pub steps: u64,
    pub errors: Vec<String>,
    pub t0: Instant,
    pub first_viol: Option<Instant>,
    pub max_constraints: usize,
    pub max_syms: usize,
    errno_obj: u64,
    rng: u64,
}

fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Mem {
    #[inline]
    fn slot(&self, id: usize) -> Option<&Slot> {
        self.chunks.get(id / CH).and_then(|c| c.get(id % CH))
    }
    #[inline]
    fn slot_mut(&mut self, id: usize) -> Option<&mut Slot> {
        self.chunks.get_mut(id / CH).and_then(|c| Rc::make_mut(c).get_mut(id % CH))
    }
    fn alloc(&mut self, d: ObjData, ro: bool) -> u64 {
        let id = self.n;
        if id % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Slot { data: Rc::new(d), alive: true, ro });
        self.n += 1;
        (id as u64) << 32
    }
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg, timeout_ms: u32) -> Result<Self, String> {
        let mut bi: Vec<B> = m.fns.iter().map(|f| builtin_for(&f.name, f.body.is_some())).collect();
        // The keyed hash of the standard hash tables: every value hashes to 0, which any hash
        // table must tolerate. Only if no function computes such a hash in line, so that one
        // table never sees both.
        let keyed = |f: &FnDecl| f.name.contains("6random11RandomState") && f.name.contains("11BuildHasher8hash_one");
        let sip = |f: &FnDecl| f.body.map_or(false, |(a, b)| m.text[a..b].contains("8317987319222330741"));
        if m.fns.iter().any(|f| keyed(f)) && m.fns.iter().all(|f| keyed(f) || !sip(f)) {
            for (b, f) in bi.iter_mut().zip(&m.fns) {
                if keyed(f) && f.body.is_some() {
                    *b = B::Ret0;
                }
            }
        }
        let nf = m.fns.len();
        let ng = m.globals.len() as u64;
        Ok(Exec {
            funcs: vec![None; nf],
            visited: vec![vec![]; nf],
            bi,
            m,
            ar: Arena::new(),
            solver: Solver::new(timeout_ms),
            work: vec![],
            cfg,
            syms: Default::default(),
            sym_w: vec![],
            viols: vec![],
            checks: Default::default(),
            covers: Default::default(),
            samples: vec![],
            paths: 0,
            infeasible: 0,
            panics_allowed: 0,
            forks: 0,
            steps: 0,
            errors: vec![],
            t0: Instant::now(),
            first_viol: None,
            max_constraints: 0,
            max_syms: 0,
            errno_obj: (ng + 1) << 32,
            rng: 0x9E3779B97F4A7C15,
        })
    }
    fn func(&mut self, i: u32) -> X<Rc<Func>> {
        if let Some(f) = &self.funcs[i as usize] {
            return Ok(f.clone());
        }
        match self.m.parse_fn(i) {
            Ok(f) => {
                let f = Rc::new(f);
                self.visited[i as usize] = vec![false; f.blocks.len()];
                self.funcs[i as usize] = Some(f.clone());
                Ok(f)
            }
            Err(e) => err(format!("cannot parse {}: {}", self.m.fns[i as usize].name, e)),
        }
    }
    fn write_const(&self, t: &Ty, v: &Val, out: &mut [u8]) {
        match v {
            Val::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let o = t.field_off(i) as usize;
                    let et = t.elem(i);
                    let n = et.size() as usize;
                    self.write_const(&et, x, &mut out[o..o + n]);
                }
            }
            Val::I(k) => {
                let n = t.store_size() as usize;
                out[..n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
            Val::W(k) => {
                let n = t.store_size() as usize;
                out[..n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
            Val::E(_) => {}
        }
    }
    pub fn init_state(&mut self, entry: &str) -> Result<State, String> {
        let mut mem = Mem { chunks: vec![], n: 0 };
        mem.alloc(ObjData { bytes: vec![], sym: vec![] }, true); // object 0: null / dangling
        for i in 0..self.m.globals.len() {
            let size = self.m.globals[i].ty.size() as usize;
            let mut bytes = vec![0u8; size.max(1)];
            if let Some((t, v)) = self.m.global_init(i).map_err(|e| format!("global {}: {}", self.m.globals[i].name, e))? {
                self.write_const(&t, &v, &mut bytes[..size]);
            }
            mem.alloc(ObjData { bytes, sym: vec![] }, self.m.globals[i].constant);
        }
        let e = mem.alloc(ObjData { bytes: vec![0; 8], sym: vec![] }, false);
        assert_eq!(e, self.errno_obj);
        let ix = *self.m.fn_ix.get(entry).ok_or(format!("no entry {}", entry))?;
        let mut st = State {
            regs: vec![],
            frames: vec![],
            mem,
            stacks: vec![],
            cons: vec![],
            eqs: vec![],
            model: vec![],
            inputs: vec![],
            widths: vec![],
            obs: vec![],
            allow_panic: false,
            steps: 0,
            nchoose: 0,
            hash: 0xcbf29ce484222325,
            nchecks: 0,
            covers: Default::default(),
            tag: vec![],
            keys: vec![],
        };
        match self.enter(&mut st, ix, vec![], NOREG, NOBLK) {
            Ok(()) => Ok(st),
            Err(Stop::Error(e)) => Err(e),
            Err(_) => Err("entry".into()),
        }
    }
    fn enter(&mut self, st: &mut State, ix: u32, args: Vec<Val>, dst: u32, normal: u32) -> X<()> {
        let f = self.func(ix)?;
        let depth = st.frames.len();
        if depth >= self.cfg.max_depth {
            return Err(Stop::Limit(format!("call depth {} in {}", depth, f.name)));
        }
        let base = st.regs.len() as u32;
        st.regs.extend(args.into_iter().take(f.nparams as usize));
        st.regs.resize(base as usize + f.nregs as usize, Val::I(0));
        let mut stack = 0;
        if f.frame > 0 {
            while st.stacks.len() <= depth {
                st.stacks.push(0);
            }
            let d = ObjData { bytes: vec![0; f.frame as usize], sym: vec![] };
            if st.stacks[depth] == 0 {
                st.stacks[depth] = st.mem.alloc(d, false);
            } else {
                let s = st.mem.slot_mut((st.stacks[depth] >> 32) as usize).unwrap();
                match Rc::get_mut(&mut s.data) {
                    Some(o) => {
                        o.bytes.clear();
                        o.bytes.resize(f.frame as usize, 0);
                        o.sym.clear();
                    }
                    None => s.data = Rc::new(d),
                }
                s.alive = true;
            }
            stack = st.stacks[depth];
        }
        self.visited[ix as usize][0] = true;
        st.frames.push(Frame { f, fix: ix, pc: 0, blk: 0, base, dst, normal, stack });
        Ok(())
    }

    // ---- values -------------------------------------------------------------------------
    #[inline]
    fn get(&self, st: &State, base: u32, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.regs[(base + r) as usize].clone(),
            Opnd::C(v) => v.clone(),
        }
    }
    fn ex(&mut self, v: &Val, w: u8) -> Id {
        match v {
            Val::I(k) => self.ar.cst(w, *k as u128),
            Val::W(k) => self.ar.cst(w, **k),
            Val::E(e) => *e,
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn from_u128(w: u8, k: u128) -> Val {
        if w > 64 {
            Val::W(Rc::new(k))
        } else {
            Val::I(k as u64)
        }
    }
    fn mkv(&self, e: Id) -> Val {
        match self.ar.konst(e) {
            Some(k) => Self::from_u128(self.ar.w(e), k),
            None => Val::E(e),
        }
    }
    fn bin(&mut self, op: Bop, w: u8, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask64(w);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bop::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bop::AShr => (sext64(x, w) >> y.min(63)) as u64,
                Bop::UDiv => {
                    if y == 0 {
                        0
                    } else {
                        x / y
                    }
                }
                Bop::URem => {
                    if y == 0 {
                        0
                    } else {
                        x % y
                    }
                }
                Bop::SDiv => {
                    if y == 0 {
                        0
                    } else {
                        sext64(x, w).wrapping_div(sext64(y, w)) as u64
                    }
                }
                Bop::SRem => {
                    if y == 0 {
                        0
                    } else {
                        sext64(x, w).wrapping_rem(sext64(y, w)) as u64
                    }
                }
            };
            return Val::I(r & m);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let o = match op {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::UDiv => Op::UDiv,
            Bop::SDiv => Op::SDiv,
            Bop::URem => Op::URem,
            Bop::SRem => Op::SRem,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
        };
        let e = self.ar.bin(o, x, y);
        self.mkv(e)
    }
    fn icmp(&mut self, p: Pred, w: u8, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sext64(x, w) < sext64(y, w),
                Pred::Sle => sext64(x, w) <= sext64(y, w),
                Pred::Sgt => sext64(x, w) > sext64(y, w),
                Pred::Sge => sext64(x, w) >= sext64(y, w),
            };
            return Val::I(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not1(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.mkv(e)
    }
    fn cast(&mut self, k: Cast, fw: u8, tw: u8, v: &Val) -> Val {
        match v {
            Val::I(x) => match k {
                Cast::Z | Cast::Same => Self::from_u128(tw, *x as u128),
                Cast::T => Self::from_u128(tw, *x as u128 & mask(tw)),
                Cast::S => Self::from_u128(tw, (sext64(*x, fw) as i128 as u128) & mask(tw)),
            },
            Val::W(x) => match k {
                Cast::S => Self::from_u128(tw, (sext(**x, fw) as u128) & mask(tw)),
                _ => Self::from_u128(tw, **x & mask(tw)),
            },
            Val::E(e) => {
                let r = match k {
                    Cast::Z => self.ar.zext(*e, tw),
                    Cast::S => self.ar.sext(*e, tw),
                    Cast::T => self.ar.extract(*e, tw - 1, 0),
                    Cast::Same => *e,
                };
                self.mkv(r)
            }
            Val::Agg(a) => panic!("aggregate cast of {} lanes, {} to {}", a.len(), fw, tw),
        }
    }

    // ---- path condition -----------------------------------------------------------------
    fn slice(&self, cons: &[Id], extra: &[Id]) -> Vec<Id> {
        let mut m = [0u64; 4];
        for e in extra {
            for i in 0..4 {
                m[i] |= self.ar.masks[*e as usize][i];
            }
        }
        let mut used = vec![false; cons.len()];
        let mut out: Vec<Id> = extra.to_vec();
        loop {
            let mut ch = false;
            for (i, c) in cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let k = &self.ar.masks[*c as usize];
                if (0..4).any(|j| m[j] & k[j] != 0) {
                    used[i] = true;
                    ch = true;
                    for j in 0..4 {
                        m[j] |= k[j];
                    }
                    out.push(*c);
                }
            }
            if !ch {
                return out;
            }
        }
    }
    fn solve(&mut self, st: &State, extra: &[Id]) -> X<Option<Vec<(u32, u64)>>> {
        let s = self.slice(&st.cons, extra);
        // first only the constraints over the same symbols: if those are unsatisfiable, so is
        // the whole; if their model extends the current one, that answers the whole too
        let mut m = [0u64; 4];
        for e in extra {
            for i in 0..4 {
                m[i] |= self.ar.masks[*e as usize][i];
            }
        }
        let own: Vec<Id> = s.iter().cloned().filter(|c| (0..4).all(|j| self.ar.masks[*c as usize][j] & !m[j] == 0)).collect();
        if own.len() < s.len() {
            match self.solver.check(&self.ar, &own) {
                Answer::Unsat => return Ok(None),
                Answer::Sat(d) => {
                    let mut mm = st.model.clone();
                    Self::apply_model(&mut mm, &d);
                    if s.iter().all(|c| self.ar.eval(*c, &mm) == 1) {
                        return Ok(Some(d));
                    }
                }
                Answer::Unknown => {}
            }
        }
        match self.solver.check(&self.ar, &s) {
            Answer::Unsat => Ok(None),
            Answer::Sat(m) => Ok(Some(m)),
            Answer::Unknown => err("solver returned unknown (timeout)"),
        }
    }
    fn apply_model(model: &mut Vec<u64>, m: &[(u32, u64)]) {
        for (s, v) in m {
            let i = *s as usize;
            if model.len() <= i {
                model.resize(i + 1, 0);
            }
            model[i] = *v;
        }
    }
    fn add_con(&mut self, st: &mut State, c: Id) {
        if c == Arena::TRUE || st.cons.contains(&c) {
            return;
        }
        let n = self.ar.n(c);
        if n.op == Op::Eq {
            if let Some(k) = self.ar.konst(n.b) {
                st.eqs.push((n.a, k));
            }
        }
        if n.op == Op::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        st.cons.push(c);
        if st.cons.len() > self.max_constraints {
            self.max_constraints = st.cons.len();
        }
    }
    fn known(&mut self, st: &State, e: Id) -> Option<u128> {
        if self.ar.w(e) == 1 {
            if st.cons.contains(&e) {
                return Some(1);
            }
            let ne = self.ar.not1(e);
            if st.cons.contains(&ne) {
                return Some(0);
            }
        }
        for (x, k) in &st.eqs {
            if *x == e {
                return Some(*k);
            }
        }
        None
    }
    /// Decide a 1-bit condition on `st`, forking if both values are feasible. The sibling
    /// re-executes the current instruction with the register set to the other value.
    fn split(&mut self, st: &mut State, c: Id, reg: Option<usize>) -> X<bool> {
        if let Some(k) = self.ar.konst(c) {
            return Ok(k == 1);
        }
        if let Some(k) = self.known(st, c) {
            if let Some(r) = reg {
                st.regs[r] = Val::I(k as u64);
            }
            return Ok(k == 1);
        }
        let here = self.ar.eval(c, &st.model) == 1;
        let nc = self.ar.not1(c);
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        if let Some(m) = self.solve(st, &[other])? {
            let mut o = st.clone();
            Self::apply_model(&mut o.model, &m);
            self.add_con(&mut o, other);
            if let Some(r) = reg {
                o.regs[r] = Val::I(!here as u64);
            }
            self.forks += 1;
            self.work.push(o);
            self.add_con(st, mine);
        }
        if let Some(r) = reg {
            st.regs[r] = Val::I(here as u64);
        }
        Ok(here)
    }
    /// All feasible values of an expression (at most `cap`).
    fn values(&mut self, st: &State, e: Id, cap: usize) -> X<Vec<(u128, Option<Vec<(u32, u64)>>)>> {
        let w = self.ar.w(e);
        let v0 = self.ar.eval(e, &st.model);
        let mut out: Vec<(u128, Option<Vec<(u32, u64)>>)> = vec![(v0, None)];
        let mut ex = vec![];
        let k = self.ar.cst(w, v0);
        let q = self.ar.bin(Op::Eq, e, k);
        ex.push(self.ar.not1(q));
        loop {
            match self.solve(st, &ex)? {
                None => return Ok(out),
                Some(m) => {
                    let mut mm = st.model.clone();
                    Self::apply_model(&mut mm, &m);
                    let v = self.ar.eval(e, &mm);
                    out.push((v, Some(m)));
                    if out.len() > cap {
                        return err(format!("more than {} feasible values where a concrete one is needed", cap));
                    }
                    let k = self.ar.cst(w, v);
                    let q = self.ar.bin(Op::Eq, e, k);
                    ex.push(self.ar.not1(q));
                }
            }
        }
    }
    fn concretise(&mut self, st: &mut State, v: &Val, reg: Option<usize>) -> X<u64> {
        let e = match v {
            Val::I(k) => return Ok(*k),
            Val::W(k) => return Ok(**k as u64),
            Val::E(e) => *e,
            Val::Agg(_) => return err("aggregate where a scalar is needed"),
        };
        if let Some(k) = self.known(st, e) {
            if let Some(r) = reg {
                st.regs[r] = Val::I(k as u64);
            }
            return Ok(k as u64);
        }
        let w = self.ar.w(e);
        let vs = self.values(st, e, 400)?;
        let mut mine = 0;
        let base = if vs.len() > 1 { Some(st.clone()) } else { None };
        for (i, (v, m)) in vs.into_iter().enumerate() {
            let k = self.ar.cst(w, v);
            let q = self.ar.bin(Op::Eq, e, k);
            if i == 0 {
                mine = v as u64;
                self.add_con(st, q);
                if let Some(r) = reg {
                    st.regs[r] = Val::I(mine);
                }
            } else {
                let mut o = base.as_ref().unwrap().clone();
                Self::apply_model(&mut o.model, &m.unwrap());
                self.add_con(&mut o, q);
                if let Some(r) = reg {
                    o.regs[r] = Val::I(v as u64);
                }
                self.forks += 1;
                self.work.push(o);
            }
        }
        Ok(mine)
    }
    fn rix(base: u32, o: &Opnd) -> Option<usize> {
        match o {
            Opnd::R(r) => Some((base + r) as usize),
            _ => None,
        }
    }
    fn conc_op(&mut self, st: &mut State, base: u32, o: &Opnd) -> X<u64> {
        let v = self.get(st, base, o);
        self.concretise(st, &v, Self::rix(base, o))
    }

    // ---- memory -------------------------------------------------------------------------
    fn chk<'a>(mem: &'a Mem, a: u64, n: u64, w: bool) -> X<&'a ObjData> {
        let id = (a >> 32) as usize;
        let off = a & 0xffff_ffff;
        match mem.slot(id) {
            Some(s) if s.alive && id != 0 => {
                if off + n > s.data.bytes.len() as u64 {
                    return err(format!("out of bounds access: object {} size {} offset {} len {}", id, s.data.bytes.len(), off, n));
                }
                if w && s.ro {
                    return err("write to constant");
                }
                Ok(&s.data)
            }
            _ => err(format!("invalid access at {:#x} len {}", a, n)),
        }
    }
    fn load_bits(&mut self, mem: &Mem, a: u64, n: usize, w: u8) -> X<Val> {
        let d = Self::chk(mem, a, n as u64, false)?;
        let off = (a & 0xffff_ffff) as usize;
        if d.sym.is_empty() || d.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&d.bytes[off..off + n]);
                return Ok(Val::I(u64::from_le_bytes(b) & mask64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&d.bytes[off..off + n]);
            return Ok(Self::from_u128(w, u128::from_le_bytes(b) & mask(w)));
        }
        let mut e: Option<Id> = None;
        for i in (0..n).rev() {
            let s = d.sym[off + i];
            let b = if s != 0 { s } else { self.ar.cst(8, d.bytes[off + i] as u128) };
            e = Some(match e {
                None => b,
                Some(h) => self.ar.concat(h, b),
            });
        }
        let mut e = e.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.extract(e, w - 1, 0);
        }
        Ok(self.mkv(e))
    }
    fn load(&mut self, mem: &Mem, a: u64, t: &Ty) -> X<Val> {
        match t {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    let et = t.elem(i);
                    v.push(self.load(mem, a + t.field_off(i), &et)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => self.load_bits(mem, a, t.store_size() as usize, t.w()),
        }
    }
    fn obj_mut<'a>(mem: &'a mut Mem, a: u64, n: u64) -> X<&'a mut ObjData> {
        Self::chk(mem, a, n, true)?;
        let s = mem.slot_mut((a >> 32) as usize).unwrap();
        Ok(Rc::make_mut(&mut s.data))
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> X<()> {
        match v {
            Val::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, a + t.field_off(i), &t.elem(i), x)?;
                }
                Ok(())
            }
            Val::I(k) => {
                let n = t.store_size() as usize;
                let d = Self::obj_mut(&mut st.mem, a, n as u64)?;
                let off = (a & 0xffff_ffff) as usize;
                let k = (*k).to_le_bytes();
                for i in 0..n {
                    d.bytes[off + i] = if i < 8 { k[i] } else { 0 };
                }
                if !d.sym.is_empty() {
                    for i in 0..n {
                        d.sym[off + i] = 0;
                    }
                }
                Ok(())
            }
            Val::W(k) => {
                let n = t.store_size() as usize;
                let d = Self::obj_mut(&mut st.mem, a, n as u64)?;
                let off = (a & 0xffff_ffff) as usize;
                d.bytes[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if !d.sym.is_empty() {
                    for i in 0..n {
                        d.sym[off + i] = 0;
                    }
                }
                Ok(())
            }
            Val::E(e) => {
                let n = t.store_size() as usize;
                let mut e = *e;
                let w = self.ar.w(e);
                if (w as usize) < n * 8 {
                    e = self.ar.zext(e, (n * 8) as u8);
                }
                let bytes: Vec<Id> = (0..n).map(|i| self.ar.extract(e, (i * 8 + 7) as u8, (i * 8) as u8)).collect();
                let ks: Vec<Option<u128>> = bytes.iter().map(|b| self.ar.konst(*b)).collect();
                let d = Self::obj_mut(&mut st.mem, a, n as u64)?;
                let off = (a & 0xffff_ffff) as usize;
                if d.sym.is_empty() {
                    d.sym = vec![0; d.bytes.len()];
                }
                for i in 0..n {
                    match ks[i] {
                        Some(k) => {
                            d.bytes[off + i] = k as u8;
                            d.sym[off + i] = 0;
                        }
                        None => {
                            d.bytes[off + i] = 0;
                            d.sym[off + i] = bytes[i];
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, s) = {
            let d = Self::chk(&st.mem, src, n, false)?;
            let o = (src & 0xffff_ffff) as usize;
            let r = o..o + n as usize;
            (d.bytes[r.clone()].to_vec(), if d.sym.is_empty() { vec![] } else { d.sym[r].to_vec() })
        };
        let d = Self::obj_mut(&mut st.mem, dst, n)?;
        let o = (dst & 0xffff_ffff) as usize;
        d.bytes[o..o + n as usize].copy_from_slice(&b);
        if !s.is_empty() && s.iter().any(|x| *x != 0) {
            if d.sym.is_empty() {
                d.sym = vec![0; d.bytes.len()];
            }
            d.sym[o..o + n as usize].copy_from_slice(&s);
        } else if !d.sym.is_empty() {
            for x in &mut d.sym[o..o + n as usize] {
                *x = 0;
            }
        }
        Ok(())
    }
    /// byte expressions of a region
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> X<Vec<Id>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let d = Self::chk(&st.mem, a, n, false)?;
        let o = (a & 0xffff_ffff) as usize;
        let mut v = vec![];
        for i in 0..n as usize {
            let s = if d.sym.is_empty() { 0 } else { d.sym[o + i] };
            v.push(if s != 0 { s } else { self.ar.cst(8, d.bytes[o + i] as u128) });
        }
        Ok(v)
    }
    fn string(&mut self, st: &State, a: u64, n: u64) -> X<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let d = Self::chk(&st.mem, a, n, false)?;
        let o = (a & 0xffff_ffff) as usize;
        Ok(String::from_utf8_lossy(&d.bytes[o..o + n as usize]).to_string())
    }
    /// Address operand of a load: a symbolic address becomes a case split over the feasible ones.
    fn load_sym(&mut self, st: &mut State, e: Id, t: &Ty) -> X<Val> {
        if let Some(k) = self.known(st, e) {
            return self.load(&st.mem.clone(), k as u64, t);
        }
        let vs: Vec<u128> = match self.single_byte_values(st, e, t.store_size())? {
            Some(v) => v,
            None => self.values(st, e, 400)?.into_iter().map(|x| x.0).collect(),
        };
        let mut acc: Option<Val> = None;
        for v in vs {
            let x = self.load(&st.mem, v as u64, t)?;
            acc = Some(match acc {
                None => x,
                Some(p) => {
                    let k = self.ar.cst(64, v);
                    let c = self.ar.bin(Op::Eq, e, k);
                    self.ite(c, &x, &p, t)?
                }
            });
        }
        Ok(acc.unwrap())
    }
    /// If `e` depends on one 8-bit symbol: the addresses for all its values (those outside any
    /// object are shown infeasible by one query).
    fn single_byte_values(&mut self, st: &State, e: Id, n: u64) -> X<Option<Vec<u128>>> {
        let mut syms = vec![];
        collect_syms(&self.ar, &[e], &mut syms);
        if syms.len() != 1 || self.ar.w(syms[0].1) != 8 {
            return Ok(None);
        }
        let s = syms[0].0 as usize;
        let mut mm = vec![0u64; s + 1];
        let mut good = BTreeSet::new();
        let mut bad = BTreeSet::new();
        for v in 0..256u64 {
            mm[s] = v;
            let a = self.ar.eval(e, &mm);
            if Self::chk(&st.mem, a as u64, n, false).is_ok() {
                good.insert(a);
            } else {
                bad.insert(a);
            }
        }
        if !bad.is_empty() {
            let mut q = Arena::FALSE;
            for b in bad {
                let k = self.ar.cst(64, b);
                let c = self.ar.bin(Op::Eq, e, k);
                q = self.ar.bin(Op::Or, q, c);
            }
            if self.solve(st, &[q])?.is_some() {
                return err("symbolic load can be out of bounds");
            }
        }
        // keep only those feasible for the object bounds of this access size
        let mut out = vec![];
        for g in good {
            out.push(g);
        }
        Ok(Some(out))
    }
    fn ite(&mut self, c: Id, x: &Val, y: &Val, t: &Ty) -> X<Val> {
        match (x, y) {
            (Val::Agg(a), Val::Agg(b)) => {
                let mut v = vec![];
                for i in 0..a.len() {
                    v.push(self.ite(c, &a[i], &b[i], &t.elem(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                let w = t.w();
                let p = self.ex(x, w);
                let q = self.ex(y, w);
                let r = self.ar.ite(c, p, q);
                Ok(self.mkv(r))
            }
        }
    }

    // ---- results ------------------------------------------------------------------------
    fn input_vals(&self, st: &State, model: &[u64]) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Conc(v) => *v,
                Input::Sym(s) => model.get(*s as usize).copied().unwrap_or(0) & mask64(self.sym_w[*s as usize]),
            })
            .collect()
    }
    fn trace_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(12) {
            let d = f.f.dbg.get(f.pc as usize).copied().unwrap_or(0);
            v.push(format!("{} {}", f.f.name, self.loc(d).unwrap_or_default()));
        }
        v
    }
    fn report(&mut self, st: &State, model: &[u64], check: String, detail: String) {
        let n = {
            let c = self.checks.entry(check.clone()).or_default();
            c.failed += 1;
            c.failed
        };
        if self.first_viol.is_none() && !check.starts_with("kf.") {
            self.first_viol = Some(Instant::now());
        }
        if n > self.cfg.max_viol {
            return;
        }
        let inputs = self.input_vals(st, model);
        let trace = self.trace_of(st);
        self.viols.push(Violation { check, detail, inputs, trace, tag: String::from_utf8_lossy(&st.tag).to_string() });
    }
    pub fn run_all(&mut self, entry: &str) -> Result<(), String> {
        let st = self.init_state(entry)?;
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs {
                self.errors.push(format!("time limit {} s reached with {} states pending", self.cfg.max_secs, self.work.len() + 1));
                break;
            }
            if self.first_viol.map_or(false, |t| t.elapsed().as_secs_f64() > self.cfg.grace) {
                self.errors.push(format!("stopped after a violation with {} states pending", self.work.len() + 1));
                break;
            }
            if self.paths >= self.cfg.max_paths {
                self.errors.push(format!("path limit {} reached", self.cfg.max_paths));
                break;
            }
            let s0 = st.steps;
            let r = self.run(&mut st);
            self.steps += st.steps - s0;
            match r {
                Ok(()) | Err(Stop::Done) => {
                    if self.keep(&st) {
                        self.path_end(&st)
                    }
                }
                Err(Stop::Infeasible) => self.infeasible += 1,
                Err(Stop::Sharded) => {}
                Err(Stop::Panic(d)) => {
                    if !self.keep(&st) {
                        continue;
                    }
                    if st.allow_panic {
                        self.panics_allowed += 1;
                        self.path_end(&st);
                    } else {
                        let m = st.model.clone();
                        self.paths += 1;
                        self.report(&st, &m, "panic".into(), d);
                    }
                }
                Err(Stop::Limit(d)) => {
                    if !self.keep(&st) {
                        continue;
                    }
                    let m = st.model.clone();
                    self.paths += 1;
                    self.report(&st, &m, "nontermination".into(), d);
                }
                Err(Stop::Error(e)) => {
                    let t = self.trace_of(&st).join(" <- ");
                    let iv = self.input_vals(&st, &st.model.clone());
                    self.errors.push(format!("{} at {} inputs {:?}", e, t, iv));
                    if self.errors.len() > 5 {
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    /// does this (finished) path belong to the shard?
    fn keep(&self, st: &State) -> bool {
        st.nchoose >= self.cfg.shard_depth || st.hash % self.cfg.shard.1 == self.cfg.shard.0
    }
    fn path_end(&mut self, st: &State) {
        self.paths += 1;
        for c in &st.covers {
            *self.covers.entry(c.clone()).or_default() += 1;
        }
        if st.inputs.len() > self.max_syms {
            self.max_syms = st.inputs.len();
        }
        // reservoir of replayable samples
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let k = ((self.rng >> 33) % self.paths) as usize;
        if self.samples.len() < self.cfg.nsamples || k < self.cfg.nsamples {
            let inputs = self.input_vals(st, &st.model);
            let obs: Vec<u64> = st.obs.iter().map(|e| self.ar.eval(*e, &st.model) as u64).collect();
            let s = Sample { inputs, obs, checks: st.nchecks };
            if self.samples.len() < self.cfg.nsamples {
                self.samples.push(s)
            } else {
                self.samples[k] = s
            }
        }
    }
    pub fn loc(&self, d: u32) -> Option<String> {
        let (f, l, _) = self.loc3(d)?;
        Some(format!("{}:{}", f, l))
    }
    fn meta(&self, d: u32) -> Option<&str> {
        self.m.meta.get(&d).map(|(a, b)| &self.m.text[*a..*b])
    }
    fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
        let p = t.find(&format!("{}: ", k))?;
        let r = &t[p + k.len() + 2..];
        let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
        Some(&r[..e])
    }
    fn mref(t: &str, k: &str) -> Option<u32> {
        Self::field(t, k)?.strip_prefix('!')?.parse().ok()
    }
    /// (file, line, subprogram name)
    pub fn loc3(&self, d: u32) -> Option<(String, u32, String)> {
        let t = self.meta(d)?;
        let line: u32 = Self::field(t, "line")?.parse().ok()?;
        let mut sc = Self::mref(t, "scope")?;
        let mut file: Option<u32> = None;
        for _ in 0..60 {
            let s = self.meta(sc)?;
            if file.is_none() {
                file = Self::mref(s, "file");
            }
            if s.contains("DISubprogram(") {
                let name = Self::field(s, "name")?.trim_matches('"').to_string();
                let fl = self.meta(file?)?;
                let mut path = Self::field(fl, "filename")?.trim_matches('"').to_string();
                if let (false, Some(d)) = (path.starts_with('/'), Self::field(fl, "directory")) {
                    path = format!("{}/{}", d.trim_matches('"'), path);
                }
                let link = Self::field(s, "linkageName").map(|x| x.trim_matches('"').to_string()).unwrap_or(name);
                return Some((path, line, link));
            }
            sc = Self::mref(s, "scope")?;
        }
        None
    }
    pub fn inlined_at(&self, d: u32) -> Option<u32> {
        Self::mref(self.meta(d)?, "inlinedAt")
    }

    // ---- the interpreter ------------------------------------------------------------------
    fn goto(&mut self, st: &mut State, blk: u32) -> u32 {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        fr.blk = blk;
        let base = fr.base;
        self.visited[fr.fix as usize][blk as usize] = true;
        let b = &f.blocks[blk as usize];
        if b.phis.len() == 1 {
            let (d, ins) = &b.phis[0];
            let v = ins.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi edge");
            let v = self.get(st, base, v);
            st.regs[(base + d) as usize] = v;
        } else if !b.phis.is_empty() {
            let vs: Vec<Val> = b
                .phis
                .iter()
                .map(|(_, ins)| {
                    let v = ins.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi edge");
                    self.get(st, base, v)
                })
                .collect();
            for ((d, _), v) in b.phis.iter().zip(vs) {
                st.regs[(base + d) as usize] = v;
            }
        }
        b.start
    }
    fn run(&mut self, st: &mut State) -> X<()> {
        'frames: loop {
            let (f, base, mut pc) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.base, fr.pc)
            };
            macro_rules! g {
                ($o:expr) => {
                    self.get(st, base, $o)
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[(base + *$d) as usize] = v;
                }};
            }
            loop {
                st.steps += 1;
                if st.steps & 0xfffff == 0 {
                    if st.steps > self.cfg.max_steps {
                        return Err(Stop::Limit(format!("{} instructions on one path, in {}", st.steps, f.name)));
                    }
                    if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs {
                        return err("time limit reached inside a path");
                    }
                }
                st.frames.last_mut().unwrap().pc = pc;
                let ins = &f.ins[pc as usize];
                if self.cfg.trace {
                    eprintln!("  [{}] {} {:?}", st.frames.len(), pc, ins);
                }
                match ins {
                    Ins::Bin(op, t, d, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if let Ty::Vec(_, et) = t {
                            let w = et.w();
                            let r = self.lanes(&x, &y, |s, p, q| s.bin(*op, w, p, q))?;
                            set!(d, r);
                        } else {
                            let w = t.w();
                            let r = self.bin(*op, w, &x, &y);
                            set!(d, r);
                        }
                        pc += 1;
                    }
                    Ins::ICmp(p, t, d, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if let Ty::Vec(_, et) = t {
                            let w = et.w();
                            let r = self.lanes(&x, &y, |s, m, n| s.icmp(*p, w, m, n))?;
                            set!(d, r);
                        } else {
                            let r = self.icmp(*p, t.w(), &x, &y);
                            set!(d, r);
                        }
                        pc += 1;
                    }
                    Ins::Cast(k, t, t2, d, a) => {
                        let x = g!(a);
                        let r = match (&x, t, t2) {
                            (Val::Agg(v), Ty::Vec(_, e1), Ty::Vec(_, e2)) => {
                                let mut o = vec![];
                                for q in v.iter() {
                                    o.push(self.cast(*k, e1.w(), e2.w(), q));
                                }
                                Val::Agg(Rc::new(o))
                            }
                            (Val::Agg(_), _, _) => return err(format!("cast of an aggregate {:?} to {:?} (operand {:?})", t, t2, a)),
                            _ => self.cast(*k, t.w(), t2.w(), &x),
                        };
                        set!(d, r);
                        pc += 1;
                    }
                    Ins::BitCast(t, t2, d, a) => {
                        let x = g!(a);
                        let r = self.bitcast(t, t2, &x)?;
                        set!(d, r);
                        pc += 1;
                    }
                    Ins::Copy(d, a) => {
                        let x = g!(a);
                        set!(d, x);
                        pc += 1;
                    }
                    Ins::Load(t, d, p) => {
                        let a = g!(p);
                        let v = match a {
                            Val::I(a) => {
                                if let (Ty::Int(_) | Ty::Ptr, Some(s)) = (t, st.mem.slot((a >> 32) as usize)) {
                                    // fast path
                                    let n = t.store_size() as usize;
                                    let off = (a & 0xffff_ffff) as usize;
                                    if n <= 8 && s.alive && s.data.sym.is_empty() && off + n <= s.data.bytes.len() && a >> 32 != 0 {
                                        let mut b = [0u8; 8];
                                        b[..n].copy_from_slice(&s.data.bytes[off..off + n]);
                                        Val::I(u64::from_le_bytes(b) & mask64(t.w()))
                                    } else {
                                        let mem = std::mem::replace(&mut st.mem, Mem { chunks: vec![], n: 0 });
                                        let r = self.load(&mem, a, t);
                                        st.mem = mem;
                                        r?
                                    }
                                } else {
                                    let mem = std::mem::replace(&mut st.mem, Mem { chunks: vec![], n: 0 });
                                    let r = self.load(&mem, a, t);
                                    st.mem = mem;
                                    r?
                                }
                            }
                            Val::E(e) => self.load_sym(st, e, t)?,
                            _ => return err("address"),
                        };
                        set!(d, v);
                        pc += 1;
                    }
                    Ins::Store(t, v, p) => {
                        let a = self.conc_op(st, base, p)?;
                        let x = g!(v);
                        self.store(st, a, t, &x)?;
                        pc += 1;
                    }
                    Ins::Gep(d, b, off, dynv) => {
                        let p = g!(b);
                        let mut acc = match p {
                            Val::I(k) => Val::I(k.wrapping_add(*off as u64)),
                            e => self.bin(Bop::Add, 64, &e, &Val::I(*off as u64)),
                        };
                        for (o, w, sc) in dynv {
                            let x = g!(o);
                            acc = match (&acc, &x) {
                                (Val::I(a), Val::I(i)) => Val::I(a.wrapping_add((sext64(*i, *w)).wrapping_mul(*sc) as u64)),
                                _ => {
                                    let i = if *w < 64 { self.cast(Cast::S, *w, 64, &x) } else { x };
                                    let m = self.bin(Bop::Mul, 64, &i, &Val::I(*sc as u64));
                                    self.bin(Bop::Add, 64, &acc, &m)
                                }
                            };
                        }
                        set!(d, acc);
                        pc += 1;
                    }
                    Ins::Select(t, d, c, x, y) => {
                        let cv = g!(c);
                        let v = match cv {
                            Val::I(1) => g!(x),
                            Val::I(_) => g!(y),
                            Val::E(e) => {
                                let (p, q) = (g!(x), g!(y));
                                if *t == Ty::Ptr || t.is_agg() {
                                    if let (Val::I(m), Val::I(n)) = (&p, &q) {
                                        if m == n {
                                            set!(d, p);
                                            pc += 1;
                                            continue;
                                        }
                                    }
                                    if self.split(st, e, Self::rix(base, c))? {
                                        p
                                    } else {
                                        q
                                    }
                                } else {
                                    self.ite(e, &p, &q, t)?
                                }
                            }
                            Val::Agg(cs) => match (g!(x), g!(y), t) {
                                (Val::Agg(p), Val::Agg(q), Ty::Vec(_, et)) => {
                                    let mut o = vec![];
                                    for i in 0..cs.len() {
                                        o.push(match &cs[i] {
                                            Val::I(1) => p[i].clone(),
                                            Val::I(_) => q[i].clone(),
                                            Val::E(e) => self.ite(*e, &p[i], &q[i], et)?,
                                            _ => return err("vector select"),
                                        });
                                    }
                                    Val::Agg(Rc::new(o))
                                }
                                _ => return err("vector select"),
                            },
                            _ => return err("select"),
                        };
                        set!(d, v);
                        pc += 1;
                    }
                    Ins::Br(b) => pc = self.goto(st, *b),
                    Ins::CBr(c, a, b) => {
                        let cv = g!(c);
                        let t = match cv {
                            Val::I(k) => k & 1 == 1,
                            Val::E(e) => self.split(st, e, Self::rix(base, c))?,
                            _ => return err("br"),
                        };
                        pc = self.goto(st, if t { *a } else { *b });
                    }
                    Ins::Switch(w, v, d, cs) => {
                        let x = g!(v);
                        let t = match x {
                            Val::I(k) => cs.iter().find(|c| c.0 == k as u128).map_or(*d, |c| c.1),
                            Val::W(k) => cs.iter().find(|c| c.0 == *k).map_or(*d, |c| c.1),
                            Val::E(e) => {
                                if let Some(k) = self.known(st, e) {
                                    cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1)
                                } else {
                                    self.switch(st, *w, e, *d, cs)?
                                }
                            }
                            _ => return err("switch"),
                        };
                        pc = self.goto(st, t);
                    }
                    Ins::ExtractV(d, a, ix) => {
                        let mut x = g!(a);
                        for i in ix {
                            x = match &x {
                                Val::Agg(v) => v[*i as usize].clone(),
                                _ => return err("extractvalue"),
                            };
                        }
                        set!(d, x);
                        pc += 1;
                    }
                    Ins::InsertV(d, a, b, ix) => {
                        let x = g!(a);
                        let y = g!(b);
                        fn ins(a: &Val, b: Val, ix: &[u32]) -> Val {
                            if ix.is_empty() {
                                return b;
                            }
                            match a {
                                Val::Agg(v) => {
                                    let mut v = (**v).clone();
                                    let k = ix[0] as usize;
                                    v[k] = ins(&v[k], b, &ix[1..]);
                                    Val::Agg(Rc::new(v))
                                }
                                _ => panic!("insertvalue"),
                            }
                        }
                        let r = ins(&x, y, ix);
                        set!(d, r);
                        pc += 1;
                    }
                    Ins::ExtractE(d, a, i) => {
                        let x = g!(a);
                        let k = self.conc_op(st, base, i)?;
                        match &x {
                            Val::Agg(v) => set!(d, v[k as usize].clone()),
                            _ => return err("extractelement"),
                        }
                        pc += 1;
                    }
                    Ins::InsertE(d, a, b, i) => {
                        let x = g!(a);
                        let y = g!(b);
                        let k = self.conc_op(st, base, i)?;
                        match &x {
                            Val::Agg(v) => {
                                let mut v = (**v).clone();
                                v[k as usize] = y;
                                set!(d, Val::Agg(Rc::new(v)))
                            }
                            _ => return err("insertelement"),
                        }
                        pc += 1;
                    }
                    Ins::Shuffle(d, a, b, ix, n) => {
                        let (x, y) = (g!(a), g!(b));
                        match (&x, &y) {
                            (Val::Agg(x), Val::Agg(y)) => {
                                let v: Vec<Val> = ix.iter().map(|k| if k < n { x[*k as usize].clone() } else { y[(*k - *n) as usize].clone() }).collect();
                                set!(d, Val::Agg(Rc::new(v)));
                            }
                            _ => return err("shuffle"),
                        }
                        pc += 1;
                    }
                    Ins::Alloca(d, off) => {
                        let s = st.frames.last().unwrap().stack;
                        set!(d, Val::I(s + off));
                        pc += 1;
                    }
                    Ins::Nop => pc += 1,
                    Ins::Rmw(k, t, d, p, v) => {
                        let a = self.conc_op(st, base, p)?;
                        let x = g!(v);
                        let old = self.load(&st.mem.clone(), a, t)?;
                        let w = t.w();
                        let new = match k.as_str() {
                            "add" => self.bin(Bop::Add, w, &old, &x),
                            "sub" => self.bin(Bop::Sub, w, &old, &x),
                            "and" => self.bin(Bop::And, w, &old, &x),
                            "or" => self.bin(Bop::Or, w, &old, &x),
                            "xor" => self.bin(Bop::Xor, w, &old, &x),
                            "xchg" => x,
                            _ => return err(format!("atomicrmw {}", k)),
                        };
                        self.store(st, a, t, &new)?;
                        set!(d, old);
                        pc += 1;
                    }
                    Ins::CmpXchg(t, d, p, c, n) => {
                        let a = self.conc_op(st, base, p)?;
                        let (c, n) = (g!(c), g!(n));
                        let old = self.load(&st.mem.clone(), a, t)?;
                        let eq = self.icmp(Pred::Eq, t.w(), &old, &c);
                        let eq = self.concretise(st, &eq, None)?;
                        if eq == 1 {
                            self.store(st, a, t, &n)?;
                        }
                        set!(d, Val::Agg(Rc::new(vec![old, Val::I(eq)])));
                        pc += 1;
                    }
                    Ins::Ret(v) => {
                        let x = v.as_ref().map(|o| g!(o));
                        let fr = st.frames.pop().unwrap();
                        if fr.stack != 0 {
                            // leave the object; it is reset on the next entry at this depth
                        }
                        st.regs.truncate(fr.base as usize);
                        if st.frames.is_empty() {
                            return Ok(());
                        }
                        let caller = st.frames.last_mut().unwrap();
                        if fr.dst != NOREG {
                            let b = caller.base;
                            st.regs[(b + fr.dst) as usize] = x.unwrap_or(Val::I(0));
                        }
                        if fr.normal != NOBLK {
                            let npc = self.goto(st, fr.normal);
                            st.frames.last_mut().unwrap().pc = npc;
                        } else {
                            caller.pc += 1;
                        }
                        continue 'frames;
                    }
                    Ins::Unreachable => return err("unreachable executed"),
                    Ins::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
                    Ins::Call { dst, ret, f: callee, args, tys, normal } => {
                        let ix = match callee {
                            Callee::Direct(i) => *i,
                            Callee::Indirect(o) => {
                                let a = self.conc_op(st, base, o)?;
                                let k = (a >> 32).wrapping_sub(FN_BASE);
                                if k >= self.m.fns.len() as u64 || a & 0xffff_ffff != 0 {
                                    return err(format!("call through bad pointer {:#x}", a));
                                }
                                k as u32
                            }
                        };
                        let b = self.bi[ix as usize];
                        if b == B::None {
                            if self.m.fns[ix as usize].body.is_none() {
                                return err(format!("call to external function {}", self.m.fns[ix as usize].name));
                            }
                            let av: Vec<Val> = args.iter().map(|o| g!(o)).collect();
                            self.enter(st, ix, av, *dst, *normal)?;
                            continue 'frames;
                        }
                        let r = self.builtin(st, base, b, ret, args, tys)?;
                        if *dst != NOREG {
                            set!(dst, r.unwrap_or(Val::I(0)));
                        }
                        if *normal != NOBLK {
                            pc = self.goto(st, *normal);
                        } else {
                            pc += 1;
                        }
                    }
                }
            }
        }
    }
    fn lanes(&mut self, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> Val) -> X<Val> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(f(self, &x[i], &y[i]));
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => err("vector operands"),
        }
    }
    fn bitcast(&mut self, t: &Ty, t2: &Ty, x: &Val) -> X<Val> {
        if !t.is_agg() && !t2.is_agg() {
            return Ok(x.clone());
        }
        // to one wide integer
        let mut e: Option<Id> = None;
        let total: u32 = if t.is_agg() { t.elem(0).w() as u32 * t.count() as u32 } else { t.w() as u32 };
        if total > 128 {
            return err("wide bitcast");
        }
        if let Val::Agg(v) = x {
            let w = t.elem(0).w();
            for q in v.iter().rev() {
                let b = self.ex(q, w);
                e = Some(match e {
                    None => b,
                    Some(h) => self.ar.concat(h, b),
                });
            }
        } else {
            e = Some(self.ex(x, t.w()));
        }
        let e = e.unwrap();
        if t2.is_agg() {
            let w = t2.elem(0).w();
            let mut v = vec![];
            for i in 0..t2.count() {
                let q = self.ar.extract(e, (i as u8 + 1) * w - 1, i as u8 * w);
                v.push(self.mkv(q));
            }
            Ok(Val::Agg(Rc::new(v)))
        } else {
            Ok(self.mkv(e))
        }
    }
    fn switch(&mut self, st: &mut State, w: u8, e: Id, d: u32, cs: &[(u128, u32)]) -> X<u32> {
        // group the cases by target
        let mut groups: Vec<(u32, Id)> = vec![];
        let mut any = Arena::FALSE;
        for (k, l) in cs {
            let k = self.ar.cst(w, *k);
            let q = self.ar.bin(Op::Eq, e, k);
            any = self.ar.bin(Op::Or, any, q);
            match groups.iter_mut().find(|g| g.0 == *l) {
                Some(g) => g.1 = self.ar.bin(Op::Or, g.1, q),
                None => groups.push((*l, q)),
            }
        }
        let nd = self.ar.not1(any);
        match groups.iter_mut().find(|g| g.0 == d) {
            Some(g) => g.1 = self.ar.bin(Op::Or, g.1, nd),
            None => groups.push((d, nd)),
        }
        let mut mine = None;
        let base = st.clone();
        for (l, q) in groups {
            if q == Arena::FALSE {
                continue;
            }
            if mine.is_none() && self.ar.eval(q, &base.model) == 1 {
                mine = Some((l, q));
                continue;
            }
            if let Some(m) = self.solve(&base, &[q])? {
                let mut o = base.clone();
                Self::apply_model(&mut o.model, &m);
                self.add_con(&mut o, q);
                self.forks += 1;
                // the sibling continues directly in the target block
                let npc = self.goto(&mut o, l);
                o.frames.last_mut().unwrap().pc = npc;
                self.work.push(o);
            }
        }
        let (l, q) = mine.expect("switch target under the model");
        self.add_con(st, q);
        Ok(l)
    }

    fn builtin(&mut self, st: &mut State, base: u32, b: B, ret: &Ty, args: &[Opnd], tys: &[Ty]) -> X<Option<Val>> {
        macro_rules! g {
            ($i:expr) => {
                self.get(st, base, &args[$i])
            };
        }
        macro_rules! c {
            ($i:expr) => {
                self.conc_op(st, base, &args[$i])?
            };
        }
        let w = match ret {
            Ty::Struct(_, fs) if !fs.is_empty() => fs[0].w(),
            t => t.w(),
        };
        Ok(Some(match b {
            B::None => unreachable!(),
            B::Nop => return Ok(None),
            B::Malloc => {
                let n = c!(0);
                Val::I(self.malloc(st, n)?)
            }
            B::Calloc => {
                let n = c!(0);
                let k = c!(1);
                Val::I(self.malloc(st, n * k)?)
            }
            B::Memalign => {
                let p = c!(0);
                let n = c!(2);
                let a = self.malloc(st, n)?;
                self.store(st, p, &Ty::Ptr, &Val::I(a))?;
                Val::I(0)
            }
            B::Realloc => {
                let p = c!(0);
                let n = c!(1);
                let a = self.malloc(st, n)?;
                if p != 0 {
                    let old = Self::chk(&st.mem, p, 0, false)?.bytes.len() as u64;
                    self.copy(st, a, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Val::I(a)
            }
            B::Free => {
                let p = c!(0);
                if p != 0 {
                    self.free(st, p)?;
                }
                return Ok(None);
            }
            B::Memcpy => {
                let n = c!(2);
                let d = c!(0);
                let s = c!(1);
                self.copy(st, d, s, n)?;
                Val::I(d)
            }
            B::Memset => {
                let n = c!(2);
                let d = c!(0);
                let v = g!(1);
                let v = if tys[1].w() > 8 { self.cast(Cast::T, tys[1].w(), 8, &v) } else { v };
                for i in 0..n {
                    self.store(st, d + i, &Ty::Int(8), &v)?;
                }
                Val::I(d)
            }
            B::Memcmp | B::Bcmp => {
                let n = c!(2);
                let p = c!(0);
                let q = c!(1);
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                let r;
                if b == B::Bcmp {
                    let mut all = Arena::TRUE;
                    for i in (0..n as usize).rev() {
                        let e = self.ar.bin(Op::Eq, x[i], y[i]);
                        all = self.ar.bin(Op::And, e, all);
                    }
                    let z = self.ar.cst(32, 0);
                    let o = self.ar.cst(32, 1);
                    r = self.ar.ite(all, z, o);
                } else {
                    let mut acc = self.ar.cst(32, 0);
                    let lt = self.ar.cst(32, u32::MAX as u128);
                    let gt = self.ar.cst(32, 1);
                    for i in (0..n as usize).rev() {
                        let e = self.ar.bin(Op::Eq, x[i], y[i]);
                        let l = self.ar.bin(Op::Ult, x[i], y[i]);
                        let s = self.ar.ite(l, lt, gt);
                        acc = self.ar.ite(e, acc, s);
                    }
                    r = acc;
                }
                self.mkv(r)
            }
            B::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    match self.load(&st.mem.clone(), p + n, &Ty::Int(8))? {
                        Val::I(0) => break,
                        Val::I(_) => n += 1,
                        _ => return err("strlen on symbolic data"),
                    }
                }
                Val::I(n)
            }
            B::KeyCreate => {
                // thread-specific data of the one thread there is
                let p = c!(0);
                st.keys.push(Val::I(0));
                let k = st.keys.len() as u64;
                self.store(st, p, &Ty::Int(32), &Val::I(k))?;
                Val::I(0)
            }
            B::KeySet => {
                let (k, v) = (c!(0) as usize, g!(1));
                match st.keys.get_mut(k.wrapping_sub(1)) {
                    Some(x) => *x = v,
                    None => return err("pthread_setspecific: no such key"),
                }
                Val::I(0)
            }
            B::LoadRel => {
                // a table of offsets relative to its own address
                let p = c!(0);
                let at = p.wrapping_add(c!(1));
                match self.load(&st.mem.clone(), at, &Ty::Int(32))? {
                    Val::I(d) => Val::I(p.wrapping_add((d as u32 as i32 as i64 as u64) << 32)),
                    _ => return err("load.relative of symbolic data"),
                }
            }
            B::KeyGet => {
                let k = c!(0) as usize;
                st.keys.get(k.wrapping_sub(1)).cloned().unwrap_or(Val::I(0))
            }
            B::Memchr => {
                let (p, ch, n) = (c!(0), c!(1) & 0xff, c!(2));
                let mut r = 0;
                for i in 0..n {
                    match self.load(&st.mem.clone(), p + i, &Ty::Int(8))? {
                        Val::I(x) if x == ch => {
                            r = p + i;
                            break;
                        }
                        Val::I(_) => {}
                        _ => return err("memchr on symbolic data"),
                    }
                }
                Val::I(r)
            }
            B::Abort | B::Trap => {
                return Err(Stop::Panic("abort".into()));
            }
            B::Panic => {
                // the last pointer argument is usually the &Location
                let mut d = String::from("panic");
                for i in (0..args.len()).rev() {
                    if let Val::I(a) = g!(i) {
                        if let Some(s) = self.location(st, a) {
                            d = s;
                            break;
                        }
                    }
                }
                return Err(Stop::Panic(d));
            }
            B::Ret0 => Val::I(0),
            B::RetM1 => Val::I(mask64(w)),
            B::Errno => Val::I(self.errno_obj),
            B::GetRandom => {
                // getrandom(buf, len, flags) or syscall(SYS_getrandom, buf, len, flags)
                if args.len() >= 4 {
                    let n = c!(2);
                    Val::I(n)
                } else {
                    let n = c!(1);
                    Val::I(n)
                }
            }
            B::Umin | B::Umax | B::Smin | B::Smax => {
                let (x, y) = (g!(0), g!(1));
                let p = match b {
                    B::Umin => Pred::Ult,
                    B::Umax => Pred::Ugt,
                    B::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if let Ty::Vec(_, et) = ret {
                    let w = et.w();
                    let t = (**et).clone();
                    self.lanes(&x, &y, |s, m, n| {
                        let c = s.icmp(p, w, m, n);
                        match c {
                            Val::I(1) => m.clone(),
                            Val::I(_) => n.clone(),
                            Val::E(e) => s.ite(e, m, n, &t).unwrap_or(Val::I(0)),
                            _ => Val::I(0),
                        }
                    })?
                } else {
                    match self.icmp(p, w, &x, &y) {
                        Val::I(1) => x,
                        Val::I(_) => y,
                        Val::E(e) => self.ite(e, &x, &y, ret)?,
                        _ => return err("minmax"),
                    }
                }
            }
            B::Abs => {
                let x = g!(0);
                let z = Self::from_u128(w, 0);
                let n = self.bin(Bop::Sub, w, &z, &x);
                match self.icmp(Pred::Slt, w, &x, &z) {
                    Val::I(1) => n,
                    Val::I(_) => x,
                    Val::E(e) => self.ite(e, &n, &x, ret)?,
                    _ => return err("abs"),
                }
            }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let (x, y) = (g!(0), g!(1));
                let signed = matches!(b, B::SAddO | B::SSubO | B::SMulO);
                let op = match b {
                    B::UAddO | B::SAddO => Bop::Add,
                    B::USubO | B::SSubO => Bop::Sub,
                    _ => Bop::Mul,
                };
                let r = self.bin(op, w, &x, &y);
                let o = if b == B::USubO {
                    self.icmp(Pred::Ult, w, &x, &y)
                } else if b == B::UAddO {
                    self.icmp(Pred::Ult, w, &r, &x)
                } else {
                    if w > 64 {
                        return err("wide overflow arithmetic");
                    }
                    let w2 = if op == Bop::Mul { w * 2 } else { w + 1 };
                    let k = if signed { Cast::S } else { Cast::Z };
                    let xw = self.cast(k, w, w2, &x);
                    let yw = self.cast(k, w, w2, &y);
                    let full = self.bin(op, w2, &xw, &yw);
                    let back = self.cast(k, w, w2, &r);
                    // compare as expressions (widths above 64 are not I)
                    let a = self.ex(&full, w2);
                    let bb = self.ex(&back, w2);
                    let e = self.ar.bin(Op::Eq, a, bb);
                    let e = self.ar.not1(e);
                    self.mkv(e)
                };
                Val::Agg(Rc::new(vec![r, o]))
            }
            B::USubSat => {
                let (x, y) = (g!(0), g!(1));
                let r = self.bin(Bop::Sub, w, &x, &y);
                match self.icmp(Pred::Ult, w, &x, &y) {
                    Val::I(1) => Val::I(0),
                    Val::I(_) => r,
                    Val::E(e) => self.ite(e, &Val::I(0), &r, ret)?,
                    _ => return err("usub.sat"),
                }
            }
            B::UAddSat => {
                let (x, y) = (g!(0), g!(1));
                let r = self.bin(Bop::Add, w, &x, &y);
                let mx = Val::I(mask64(w));
                match self.icmp(Pred::Ult, w, &r, &x) {
                    Val::I(1) => mx,
                    Val::I(_) => r,
                    Val::E(e) => self.ite(e, &mx, &r, ret)?,
                    _ => return err("uadd.sat"),
                }
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitrev => {
                let x = g!(0);
                if let (Val::E(e), B::Bswap) = (&x, b) {
                    let mut acc: Option<Id> = None;
                    for i in 0..w / 8 {
                        let q = self.ar.extract(*e, i * 8 + 7, i * 8);
                        acc = Some(match acc {
                            None => q,
                            Some(h) => self.ar.concat(h, q),
                        });
                    }
                    let r = self.mkv(acc.unwrap());
                    return Ok(Some(r));
                }
                if let (Val::E(e), B::Ctlz | B::Cttz) = (&x, b) {
                    // nested ite over the bits
                    let mut acc = self.ar.cst(w, w as u128);
                    for i in 0..w {
                        let bit = if b == B::Ctlz { i } else { w - 1 - i };
                        let q = self.ar.extract(*e, bit, bit);
                        let k = self.ar.cst(w, (w - 1 - i) as u128);
                        acc = self.ar.ite(q, k, acc);
                    }
                    let r = self.mkv(acc);
                    return Ok(Some(r));
                }
                if let (Val::E(e), B::Ctpop) = (&x, b) {
                    let mut acc = self.ar.cst(w, 0);
                    for i in 0..w {
                        let q = self.ar.extract(*e, i, i);
                        let q = self.ar.zext(q, w);
                        acc = self.ar.bin(Op::Add, acc, q);
                    }
                    let r = self.mkv(acc);
                    return Ok(Some(r));
                }
                let k: u128 = match &x {
                    Val::I(k) => *k as u128,
                    Val::W(k) => **k,
                    _ => return err("bit intrinsic on symbolic value"),
                };
                let s = 128 - w as u32;
                let r: u128 = match b {
                    B::Ctlz => ((k << s).leading_zeros()).min(w as u32) as u128,
                    B::Cttz => k.trailing_zeros().min(w as u32) as u128,
                    B::Ctpop => k.count_ones() as u128,
                    B::Bswap => k.swap_bytes() >> s,
                    _ => k.reverse_bits() >> s,
                };
                Self::from_u128(w, r)
            }
            B::Fshl | B::Fshr => {
                let (x, y) = (g!(0), g!(1));
                let k = (c!(2) % w as u64) as u8;
                // concat x:y, shift
                let xe = self.ex(&x, w);
                let ye = self.ex(&y, w);
                let r = if k == 0 {
                    if b == B::Fshl {
                        xe
                    } else {
                        ye
                    }
                } else {
                    let (hi, lo) = if b == B::Fshl { (w - k, k) } else { (k, w - k) };
                    let h = self.ar.extract(xe, hi - 1, 0);
                    let l = self.ar.extract(ye, w - 1, w - lo);
                    self.ar.concat(h, l)
                };
                self.mkv(r)
            }
            B::Scmp | B::Ucmp => {
                let (x, y) = (g!(0), g!(1));
                let aw = tys[0].w();
                let p = if b == B::Scmp { Pred::Slt } else { Pred::Ult };
                let lt = self.icmp(p, aw, &x, &y);
                let eq = self.icmp(Pred::Eq, aw, &x, &y);
                let lt = self.ex(&lt, 1);
                let eq = self.ex(&eq, 1);
                let m1 = self.ar.cst(w, u128::MAX);
                let z = self.ar.cst(w, 0);
                let o = self.ar.cst(w, 1);
                let r = self.ar.ite(eq, z, o);
                let r = self.ar.ite(lt, m1, r);
                self.mkv(r)
            }
            B::IsConst => Val::I(0),
            B::Arg0 | B::Expect => g!(0),
            B::ReduceOr | B::ReduceAnd => {
                let x = g!(0);
                let ew = tys[0].elem(0).w();
                match &x {
                    Val::Agg(v) => {
                        let mut acc = v[0].clone();
                        for q in &v[1..] {
                            acc = self.bin(if b == B::ReduceOr { Bop::Or } else { Bop::And }, ew, &acc, q);
                        }
                        acc
                    }
                    _ => return err("reduce"),
                }
            }
            B::SxSym => {
                let sw = c!(0) as u8;
                let ord = st.inputs.len() as u32;
                let n = self.syms.len() as u32;
                let id = *self.syms.entry((ord, sw)).or_insert(n);
                if id == n {
                    self.sym_w.push(sw);
                }
                st.inputs.push(Input::Sym(id));
                let e = self.ar.sym(sw, id);
                if st.model.len() <= id as usize {
                    st.model.resize(id as usize + 1, 0);
                }
                let e = self.ar.zext(e, 64);
                self.mkv(e)
            }
            B::SxChoose => {
                let n = c!(0);
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                let dst_slot = st.frames.last().unwrap().clone();
                let before = st.clone();
                let mut mine = None;
                for i in (0..n).rev() {
                    let hash = (before.hash ^ i).wrapping_mul(0x100000001b3);
                    let hash = hash ^ (hash >> 29);
                    let nc = before.nchoose + 1;
                    if nc == self.cfg.shard_depth && hash % self.cfg.shard.1 != self.cfg.shard.0 {
                        continue;
                    }
                    if i == 0 {
                        st.inputs.push(Input::Conc(i));
                        st.nchoose = nc;
                        st.hash = hash;
                        mine = Some(i);
                    } else {
                        let mut o = before.clone();
                        o.inputs.push(Input::Conc(i));
                        o.nchoose = nc;
                        o.hash = hash;
                        // complete the call in the sibling
                        if let Ins::Call { dst, normal, .. } = &dst_slot.f.ins[dst_slot.pc as usize] {
                            if *dst != NOREG {
                                o.regs[(dst_slot.base + dst) as usize] = Val::I(i);
                            }
                            if *normal != NOBLK {
                                let p = self.goto(&mut o, *normal);
                                o.frames.last_mut().unwrap().pc = p;
                            } else {
                                o.frames.last_mut().unwrap().pc += 1;
                            }
                        }
                        self.forks += 1;
                        self.work.push(o);
                    }
                }
                match mine {
                    Some(i) => Val::I(i),
                    None => return Err(Stop::Sharded),
                }
            }
            B::SxAssume => {
                let v = g!(0);
                let v = if tys[0].w() > 1 { self.cast(Cast::T, tys[0].w(), 1, &v) } else { v };
                match v {
                    Val::I(1) => {}
                    Val::I(_) => return Err(Stop::Infeasible),
                    Val::E(e) => {
                        if self.ar.eval(e, &st.model) != 1 {
                            match self.solve(st, &[e])? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => Self::apply_model(&mut st.model, &m),
                            }
                        }
                        self.add_con(st, e);
                    }
                    _ => return err("assume"),
                }
                return Ok(None);
            }
            B::SxCheck => {
                let v = g!(0);
                let v = if tys[0].w() > 1 { self.cast(Cast::T, tys[0].w(), 1, &v) } else { v };
                let p = c!(1);
                let n = c!(2);
                let id = self.string(st, p, n)?;
                // a check at a prefix shared between shards is counted by every shard
                st.nchecks += 1;
                let cs = self.checks.entry(id.clone()).or_default();
                cs.reached += 1;
                match v {
                    Val::I(1) => cs.trivially += 1,
                    Val::I(_) => {
                        let m = st.model.clone();
                        let kf = id.starts_with("kf.");
                        self.report(st, &m, id, String::new());
                        if kf {
                            // a listed finding does not hide what comes after it
                            return Ok(None);
                        }
                        return Err(Stop::Infeasible);
                    }
                    Val::E(e) => {
                        let ne = self.ar.not1(e);
                        let bad = if self.ar.eval(ne, &st.model) == 1 {
                            Some(vec![])
                        } else {
                            self.solve(st, &[ne])?
                        };
                        match bad {
                            None => self.checks.get_mut(&id).unwrap().proved += 1,
                            Some(m) => {
                                let mut mm = st.model.clone();
                                Self::apply_model(&mut mm, &m);
                                self.report(st, &mm, id, String::new());
                                // continue with the values for which it holds
                                match self.solve(st, &[e])? {
                                    None => return Err(Stop::Infeasible),
                                    Some(m) => {
                                        Self::apply_model(&mut st.model, &m);
                                        self.add_con(st, e);
                                    }
                                }
                            }
                        }
                    }
                    _ => return err("check"),
                }
                return Ok(None);
            }
            B::SxCover => {
                let p = c!(0);
                let n = c!(1);
                let id = self.string(st, p, n)?;
                st.covers.insert(id);
                return Ok(None);
            }
            B::SxTag => {
                let p = c!(0);
                let n = c!(1);
                let id = self.string(st, p, n)?;
                st.tag = id.into_bytes();
                return Ok(None);
            }
            B::SxObserve => {
                let v = g!(0);
                let e = self.ex(&v, 64);
                st.obs.push(e);
                return Ok(None);
            }
            B::SxAllowPanic => {
                st.allow_panic = c!(0) & 1 == 1;
                return Ok(None);
            }
            B::SxTier => Val::I(self.cfg.tier),
            B::SxIsSym => {
                let v = g!(0);
                Val::I(matches!(v, Val::E(_)) as u64)
            }
        }))
    }
    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        // core::panic::Location { file: &str (ptr,len), line: u32, col: u32 }
        let d = Self::chk(&st.mem, a, 24, false).ok()?;
        if d.bytes.len() != 24 || a & 0xffff_ffff != 0 {
            return None;
        }
        let rd = |o: usize| u64::from_le_bytes(d.bytes[o..o + 8].try_into().unwrap());
        let (p, n) = (rd(0), rd(8));
        let line = u32::from_le_bytes(d.bytes[16..20].try_into().unwrap());
        if n == 0 || n > 400 {
            return None;
        }
        let s = self.string(st, p, n).ok()?;
        Some(format!("panic at {}:{}", s, line))
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n > 64 << 20 {
            return Err(Stop::Limit(format!("allocation of {} bytes", n)));
        }
        Ok(st.mem.alloc(ObjData { bytes: vec![0; n as usize], sym: vec![] }, false))
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        Self::chk(&st.mem, p, 0, true)?;
        if p & 0xffff_ffff != 0 {
            return err("free of interior pointer");
        }
        let s = st.mem.slot_mut((p >> 32) as usize).unwrap();
        s.alive = false;
        s.data = Rc::new(ObjData { bytes: vec![], sym: vec![] });
        Ok(())
    }
}
