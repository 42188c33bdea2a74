//! S01: conjugate gradient. S02: Newton. Callbacks fail at chosen calls, workspaces and buffers have a history.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use fenris_sparse::cg::*;
use nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
fn mix(x: u64) -> u64 {
    simrt::rng::mix(x, 0x50)
}
use std::cell::RefCell;
use std::error::Error;
use std::rc::Rc;

const REAL_CG: &str = "fenris-sparse::cg (ConjugateGradient, CgWorkspace, RelativeResidualCriterion), nalgebra, rayon (operators that work in parallel), std";
const REAL_N: &str = "fenris-optimize::newton and calculus (newton, newton_line_search, NoLineSearch, BacktrackingLineSearch, function builder), nalgebra, std";
const STUB: &str = "operators, preconditioners, stopping criteria, functions, Jacobian solvers and line searches are the scenario's own, with errors, panics and NaN at calls the seed chooses";

pub fn entries() -> Vec<Entry> {
    vec![
        Entry {
            id: "S01", quick_runs: 60000, thorough_runs: 3000000, gen: gen_of::<S01>, run: run_of::<S01>, valid: valid_of::<S01>,
            rule: "One case: 1-4 solves one after the other on one workspace or one solver object; each with its size (0-9), operator (definite, indefinite, negative), preconditioner, right-hand side, guess, criterion, iteration limit, and errors or panics at chosen calls of operator, preconditioner and criterion; operators optionally work in parallel on a pool. Non-trivial: a fault, or two or more solves.",
            real: REAL_CG, stub: STUB,
            probes: &["converged", "operator failed", "preconditioner failed", "criterion failed", "iteration limit", "indefinite", "panicked", "zero right-hand side", "solve after a failed one", "several iterations before the failure", "sizes differ", "operator in parallel"][..],
        },
        Entry {
            id: "S02", quick_runs: 60000, thorough_runs: 3000000, gen: gen_of::<S02>, run: run_of::<S02>, valid: valid_of::<S02>,
            rule: "One case: 1-3 Newton solves one after the other on the same buffers (which hold anything at the start); each with its size (0-6), function, Jacobian solver (exact, scaled, reversed), line search (none, trivial, backtracking, own), tolerance, iteration limit, and errors, panics or NaN at chosen calls. Non-trivial: a fault, or two or more solves.",
            real: REAL_N, stub: STUB,
            probes: &["converged", "Jacobian failed", "line search failed", "iteration limit", "panicked", "function value NaN", "converged at the start", "solve after a failed one", "backtracked"][..],
        },
    ]
}

#[derive(Debug, Clone, Copy, PartialEq)]
struct Inj {
    which: u8,
    call: usize,
}
impl std::fmt::Display for Inj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected into {} at call {}", self.which, self.call)
    }
}
impl Error for Inj {}

fn bits(v: &[f64]) -> Vec<u64> {
    // any NaN is the same
    v.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
}
fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(a, b)| a * b).sum()
}
fn unit(s: u64) -> f64 {
    (mix(s) >> 11) as f64 / (1u64 << 53) as f64
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    /// S01: operator, preconditioner, criterion. S02: function, Jacobian, line search
    which: u8,
    call: usize,
    /// 0 error, 1 panic, 2 NaN
    kind: u8,
}

// ------------------------------------------------------------------------------------------------ S01
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Solve {
    n: usize,
    seed: u64,
    /// 0 diagonally dominant, 1 diagonal, 2 indefinite, 3 negative definite, 4 ill conditioned
    op: u8,
    /// 0 identity, 1 Jacobi, 2 negative, 3 indefinite
    pre: u8,
    /// 0 any, 1 zero, 2 NaN in it, 3 a unit vector
    rhs: u8,
    /// 0 zero, 1 any, 2 the solution, 3 far away
    guess: u8,
    /// 0 relative residual, 1 accept at call `arg` of this solve, 2 true residual through the given operator, 3 never
    crit: u8,
    arg: usize,
    tol: u8,
    max_iter: Vec<usize>,
    faults: Vec<Fault>,
    scribble: bool,
    /// right-hand side and guess times 10 to this
    #[serde(default)]
    exp: i32,
    /// who multiplies: 0 the scenario, 1 the library's CsrMatrix operator (a diagonal one as preconditioner), 2 its dense
    /// operator; with preconditioner 0 its IdentityOperator
    #[serde(default)]
    store: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct S01Case {
    threads: usize,
    one_solver: bool,
    solves: Vec<Solve>,
}
struct S01;

/// the criterion gives up here
fn cap(n: usize) -> usize {
    if n > 12 { 40 + 3 * n } else { 40 }
}

struct Sys {
    a: DMatrix<f64>,
    m: Vec<f64>,
    b: Vec<f64>,
    x0: Vec<f64>,
    sol: Vec<f64>,
}
fn system(s: &Solve) -> Sys {
    let n = s.n;
    let mut a = DMatrix::zeros(n, n);
    for i in 0..n {
        for j in 0..i {
            let v = if s.op == 1 { 0.0 } else { (unit(mix(s.seed ^ (i * 97 + j) as u64)) - 0.5) / n as f64 };
            a[(i, j)] = v;
            a[(j, i)] = v;
        }
        let d = 1.0 + unit(s.seed ^ 0x55aa ^ (i as u64) << 32);
        a[(i, i)] = match s.op {
            2 if mix(s.seed ^ i as u64) % 2 == 0 => -d,
            3 => -d,
            4 => d * 10f64.powi((i % 7) as i32),
            _ => d,
        };
    }
    let m = (0..n)
        .map(|i| match s.pre {
            1 => 1.0 / a[(i, i)].abs(),
            2 => -1.0,
            3 if i % 2 == 0 => -1.0,
            _ => 1.0,
        })
        .collect();
    let mut b: Vec<f64> = (0..n)
        .map(|i| match s.rhs {
            1 => 0.0,
            3 => (i == s.seed as usize % n) as u8 as f64,
            _ => 4.0 * unit(mix(s.seed ^ 0x77 ^ (i as u64) << 20)) - 2.0,
        })
        .collect();
    let sc = 10f64.powi(s.exp);
    b.iter_mut().for_each(|b| *b *= sc);
    if s.rhs == 2 && n > 0 {
        b[s.seed as usize % n] = f64::NAN;
    }
    let sol = if n == 0 { None } else { a.clone().lu().solve(&DVector::from_vec(b.clone())) };
    let sol = sol.map(|v| v.as_slice().to_vec()).unwrap_or(vec![0.0; n]);
    let x0 = (0..n)
        .map(|i| match s.guess {
            0 => 0.0,
            2 => sol[i],
            3 => sc * 1e3 * (unit(mix(s.seed ^ 0x99 ^ (i as u64) << 24)) - 0.5),
            _ => sc * (unit(mix(s.seed ^ 0x99 ^ (i as u64) << 24)) - 0.5),
        })
        .collect();
    Sys { a, m, b, x0, sol }
}

#[derive(Default, Clone, PartialEq, Debug)]
struct Rec {
    resets: usize,
    since_reset: usize,
    in_crit: bool,
    /// operator calls not made by the criterion
    op: Vec<(Vec<u64>, Vec<u64>)>,
    pre: Vec<(Vec<u64>, Vec<u64>)>,
    /// iteration, x, residual, b, |b|, answer
    crit: Vec<(usize, Vec<u64>, Vec<u64>, Vec<u64>, u64, bool)>,
    calls: [usize; 3],
    fired: Option<(u8, usize, bool)>,
    after_fire: bool,
}
struct Cur {
    sys: Rc<Sys>,
    s: Solve,
    rec: Rec,
    par: bool,
}
type Shared = Rc<RefCell<Cur>>;
/// counts the call and decides whether it fails
fn enter(c: &Shared, which: u8) -> Option<Fault> {
    simrt::callback_point();
    let mut c = c.borrow_mut();
    if c.rec.fired.is_some() {
        c.rec.after_fire = true;
    }
    let call = c.rec.calls[which as usize];
    c.rec.calls[which as usize] += 1;
    let f = c.s.faults.iter().find(|f| f.which == which && f.call == call).cloned();
    if let Some(f) = &f {
        c.rec.fired = Some((which, call, f.kind == 1));
        simrt::note_fault(if f.kind == 1 { FK_PANIC } else { FK_ERR });
        simrt::event(900 + which as u64 * 64 + call as u64);
    }
    f
}
struct Op(Shared);
struct Pre(Shared);
struct Crit(Shared);
fn v(x: &DVectorView<f64>) -> Vec<f64> {
    x.iter().copied().collect()
}
impl LinearOperator<f64> for Op {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let fault = enter(&self.0, 0);
        let call = self.0.borrow().rec.calls[0] - 1;
        if let Some(f) = fault {
            if self.0.borrow().s.scribble {
                y.iter_mut().step_by(2).for_each(|y| *y = f64::NAN);
            }
            if f.kind == 1 {
                std::panic::panic_any(InjectedPanic(call));
            }
            return Err(Box::new(Inj { which: 0, call }));
        }
        let (sys, par) = {
            let c = self.0.borrow();
            (c.sys.clone(), c.par)
        };
        let n = sys.b.len();
        let xs = v(&x);
        let a = &sys.a;
        let store = self.0.borrow().s.store;
        if store > 0 {
            if store == 1 {
                let a = simrt::quiet(|| CsrMatrix::from(a));
                a.apply(y.as_view_mut(), x)?;
            } else {
                a.apply(y.as_view_mut(), x)?;
            }
            let out: Vec<f64> = y.iter().copied().collect();
            simrt::quiet(|| {
                for i in 0..n {
                    let (want, size) = (0..n).fold((0.0, 0.0), |(w, s): (f64, f64), j| (w + a[(i, j)] * xs[j], s + (a[(i, j)] * xs[j]).abs()));
                    ensure!(!size.is_finite() || (out[i] - want).abs() <= 1e-12 * size, "cg-operator", "component {} of the product of a {} matrix and a finite vector is {:e} instead of {:e}", i, if store == 1 { "CSR" } else { "dense" }, out[i], want);
                }
            });
            let mut c = self.0.borrow_mut();
            if !c.rec.in_crit {
                c.rec.op.push((bits(&xs), bits(&out)));
            }
            return Ok(());
        }
        let row = |i: usize| {
            simrt::callback_point();
            simrt::quiet(|| (0..n).map(|j| a[(i, j)] * xs[j]).sum::<f64>())
        };
        let out: Vec<f64> = if par { (0..n).into_par_iter().map(row).collect() } else { (0..n).map(row).collect() };
        y.copy_from_slice(&out);
        let mut c = self.0.borrow_mut();
        if !c.rec.in_crit {
            let e = (bits(&xs), bits(&out));
            c.rec.op.push(e);
        }
        Ok(())
    }
}
impl LinearOperator<f64> for Pre {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let fault = enter(&self.0, 1);
        let mut c = self.0.borrow_mut();
        let call = c.rec.calls[1] - 1;
        if let Some(f) = fault {
            if c.s.scribble {
                y.iter_mut().step_by(2).for_each(|y| *y = f64::NAN);
            }
            drop(c);
            if f.kind == 1 {
                std::panic::panic_any(InjectedPanic(call));
            }
            return Err(Box::new(Inj { which: 1, call }));
        }
        let xs = v(&x);
        let store = c.s.store;
        let out: Vec<f64> = if store == 0 {
            xs.iter().zip(&c.sys.m).map(|(x, m)| x * m).collect()
        } else {
            let d = DVector::from_vec(c.sys.m.clone());
            if c.s.pre == 0 {
                IdentityOperator.apply(y.as_view_mut(), x)?;
            } else if store == 1 {
                let d = simrt::quiet(|| {
                    let mut p = CooMatrix::new(d.len(), d.len());
                    (0..d.len()).for_each(|i| p.push(i, i, d[i]));
                    CsrMatrix::from(&p)
                });
                d.apply(y.as_view_mut(), x)?;
            } else {
                DMatrix::from_diagonal(&d).apply(y.as_view_mut(), x)?;
            }
            let out: Vec<f64> = y.iter().copied().collect();
            for i in 0..out.len() {
                ensure!(!xs.iter().all(|x| x.is_finite()) || (out[i] - xs[i] * c.sys.m[i]).abs() <= 1e-12 * xs[i].abs(), "cg-operator", "component {} of the preconditioned vector is {:e} instead of {:e}", i, out[i], xs[i] * c.sys.m[i]);
            }
            out
        };
        y.copy_from_slice(&out);
        c.rec.pre.push((bits(&xs), bits(&out)));
        Ok(())
    }
}
impl CgStoppingCriterion<f64> for Crit {
    fn reset(&self, _a: &dyn LinearOperator<f64>, _x: DVectorView<f64>, _b: DVectorView<f64>) {
        let mut c = self.0.borrow_mut();
        c.rec.resets += 1;
        c.rec.since_reset = 0;
    }
    fn has_converged(&self, a: &dyn LinearOperator<f64>, x: DVectorView<f64>, b: DVectorView<f64>, b_norm: f64, iteration: usize, r: DVectorView<f64>) -> Result<bool, SolveErrorKind> {
        let fault = enter(&self.0, 2);
        let call = self.0.borrow().rec.calls[2] - 1;
        if let Some(f) = fault {
            if f.kind == 1 {
                std::panic::panic_any(InjectedPanic(call));
            }
            return Err(SolveErrorKind::StoppingCriterionError(Box::new(Inj { which: 2, call })));
        }
        let n = b.len();
        if call >= cap(n) {
            self.0.borrow_mut().rec.fired = Some((2, call, false));
            return Err(SolveErrorKind::StoppingCriterionError(Box::new(Inj { which: 2, call })));
        }
        let (kind, arg, tol) = {
            let mut c = self.0.borrow_mut();
            c.rec.since_reset += 1;
            (c.s.crit, c.s.arg, 10f64.powi(-(c.s.tol as i32)))
        };
        let answer = match kind {
            0 => {
                let r = RelativeResidualCriterion::new(tol).has_converged(a, x, b, b_norm, iteration, r);
                match r {
                    Ok(x) => x,
                    Err(e) => return Err(e),
                }
            }
            1 => self.0.borrow().rec.since_reset > arg,
            2 => {
                self.0.borrow_mut().rec.in_crit = true;
                let mut y = DVector::zeros(x.len());
                let res = a.apply((&mut y).into(), x);
                self.0.borrow_mut().rec.in_crit = false;
                if let Err(e) = res {
                    return Err(SolveErrorKind::OperatorError(e));
                }
                (y - b).norm() <= tol * b_norm
            }
            _ => false,
        };
        let e = (iteration, bits(&v(&x)), bits(&v(&r)), bits(&v(&b)), b_norm.to_bits(), answer);
        self.0.borrow_mut().rec.crit.push(e);
        Ok(answer)
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Out {
    Ok(usize),
    /// kind (0-2 which callback, 3 indefinite operator, 4 indefinite preconditioner, 5 iterations), injected error, iterations, iteration limit named
    Err(u8, Option<(u8, usize)>, usize, Option<usize>),
    Panic(String),
}
fn outcome(r: Result<Result<CgOutput<f64>, SolveError<f64>>, Box<dyn std::any::Any + Send>>) -> Out {
    let inj = |e: &Box<dyn Error>| e.downcast_ref::<Inj>().map(|i| (i.which, i.call));
    match r {
        Ok(Ok(o)) => Out::Ok(o.num_iterations),
        Ok(Err(e)) => {
            let n = e.output.num_iterations;
            match &e.kind {
                SolveErrorKind::OperatorError(e) => Out::Err(0, inj(e), n, None),
                SolveErrorKind::PreconditionerError(e) => Out::Err(1, inj(e), n, None),
                SolveErrorKind::StoppingCriterionError(e) => Out::Err(2, inj(e), n, None),
                SolveErrorKind::IndefiniteOperator => Out::Err(3, None, n, None),
                SolveErrorKind::IndefinitePreconditioner => Out::Err(4, None, n, None),
                SolveErrorKind::MaxIterationsReached { max_iter } => Out::Err(5, None, n, Some(*max_iter)),
                _ => Out::Err(9, None, n, None),
            }
        }
        Err(p) => Out::Panic(payload(&*p)),
    }
}
fn shared(s: &Solve, par: bool) -> Shared {
    simrt::quiet(|| Rc::new(RefCell::new(Cur { sys: Rc::new(system(s)), s: s.clone(), rec: Rec::default(), par })))
}
/// one solve on `ws`: outcome, x, record
fn solve_ws(ws: &mut CgWorkspace<f64>, s: &Solve, max_iter: Option<usize>, par: bool) -> (Out, Vec<f64>, Rec) {
    let c = shared(s, par);
    let sys = c.borrow().sys.clone();
    let mut cg = ConjugateGradient::with_workspace(ws).with_operator(Op(c.clone())).with_preconditioner(Pre(c.clone())).with_stopping_criterion(Crit(c.clone()));
    if let Some(m) = max_iter {
        cg = cg.with_max_iter(m);
    }
    let b = DVector::from_vec(sys.b.clone());
    let mut x = DVector::from_vec(sys.x0.clone());
    let out = outcome(catch(|| cg.solve_with_guess(&b, &mut x)));
    let rec = c.borrow().rec.clone();
    (out, x.as_slice().to_vec(), rec)
}
fn f(b: &[u64]) -> Vec<f64> {
    b.iter().map(|&b| if b == u64::MAX { f64::NAN } else { f64::from_bits(b) }).collect()
}

fn check_solve(s: &Solve, limit: Option<usize>, out: &Out, x: &[f64], rec: &Rec, tag: &str) {
    let sys = system(s);
    let n = s.n;
    let nan = s.rhs == 2;
    ensure!(!rec.after_fire, "cg-continued-after-failure", "{}: a callback was called after one had failed ({:?})", tag, out);
    ensure!(rec.resets == 1 || (rec.resets == 0 && rec.crit.is_empty() && rec.calls[2] == 0), "cg-criterion-not-reset", "{}: the stopping criterion was reset {} times in one solve (documented: called by CG at the start of a new solve)", tag, rec.resets);
    // ---- failures
    match (&rec.fired, out) {
        (Some((_, call, true)), Out::Panic(p)) => ensure!(*p == format!("InjectedPanic({})", call), "cg-panic-changed", "{}: panic {} instead of the injected one at call {}", tag, p, call),
        (Some((w, call, false)), Out::Err(k, inj, ..)) => {
            ensure!(k == w && *inj == Some((*w, *call)), "cg-wrong-error", "{}: callback {} failed at call {}, the result is {:?}", tag, w, call, out);
        }
        (Some(fired), _) => simrt::fail("cg-failure-lost", &format!("{}: callback failed ({:?}), the result is {:?}", tag, fired, out)),
        (None, Out::Panic(p)) => simrt::fail("cg-panicked", &format!("{}: panic {} without any callback failing", tag, p)),
        (None, Out::Err(k, ..)) => ensure!(*k >= 3 && *k <= 5, "cg-invented-error", "{}: no callback failed, the result is {:?}", tag, out),
        (None, Out::Ok(_)) => {}
    }
    let num = match out {
        Out::Ok(k) | Out::Err(_, _, k, _) => *k,
        Out::Panic(_) => {
            simrt::probe(6);
            return;
        }
    };
    let zero = sys.b.iter().all(|&b| b == 0.0);
    // ---- iteration limit
    if let Some(m) = limit {
        ensure!(num <= m, "cg-too-many-iterations", "{}: {} iterations with a limit of {}", tag, num, m);
    }
    if let Out::Err(5, _, k, named) = out {
        ensure!(limit == Some(*k) && *named == limit, "cg-iteration-limit", "{}: {:?} with a limit of {:?}", tag, out, limit);
        ensure!(rec.crit.last().map(|c| c.0) == limit, "cg-iteration-limit", "{}: {:?}, but the criterion was not asked about iterate {:?}", tag, out, limit);
    }
    // ---- what the criterion saw and said
    for (i, c) in rec.crit.iter().enumerate() {
        ensure!(c.0 == i, "cg-criterion-iteration", "{}: call {} of the criterion names iteration {}", tag, i, c.0);
        ensure!(c.3 == bits(&sys.b), "cg-criterion-arguments", "{}: the criterion got another right-hand side", tag);
        if !nan {
            let bn = f64::from_bits(c.4);
            ensure!((bn - norm(&sys.b)).abs() <= 1e-12 * norm(&sys.b), "cg-criterion-arguments", "{}: |b| {} instead of {}", tag, bn, norm(&sys.b));
            if s.op != 4 {
                let (cx, cr) = (f(&c.1), f(&c.2));
                let ax = &sys.a * DVector::from_vec(cx.clone());
                let d: Vec<f64> = (0..n).map(|k| cr[k] - (sys.b[k] - ax[k])).collect();
                // the recurrence drifts from b - Ax by rounding only, relative to the largest iterate so far
                let big = rec.crit[..=i].iter().map(|c| norm(&f(&c.1))).fold(norm(&sys.b), f64::max);
                ensure!(norm(&d) <= 1e-9 * big, "cg-residual", "{}: iteration {}: the residual given to the criterion is off by {}", tag, i, norm(&d));
            }
        }
        ensure!(!c.5 || i + 1 == rec.crit.len(), "cg-continued-after-convergence", "{}: the criterion accepted iteration {} and the solver went on", tag, i);
    }
    let accepted = rec.crit.last().map_or(false, |c| c.5);
    match out {
        Out::Ok(_) if zero && rec.crit.is_empty() => {
            simrt::probe(7);
            ensure!(x.iter().all(|&x| x == 0.0) && num == 0, "cg-zero-rhs", "{}: b is zero, x is {:?} after {} iterations", tag, x, num);
        }
        Out::Ok(_) => {
            simrt::probe(0);
            ensure!(accepted, "cg-false-convergence", "{}: Ok, but the criterion never accepted", tag);
            let c = rec.crit.last().unwrap();
            ensure!(c.1 == bits(x), "cg-accepted-other-iterate", "{}: the criterion accepted {:?}, x is {:?}", tag, f(&c.1), x);
            ensure!(c.0 == num, "cg-iteration-count", "{}: {} iterations reported, the criterion accepted iteration {}", tag, num, c.0);
            if s.crit == 0 && s.op != 4 && !nan {
                let ax = &sys.a * DVector::from_vec(x.to_vec());
                let r: Vec<f64> = (0..n).map(|k| sys.b[k] - ax[k]).collect();
                let big = rec.crit.iter().map(|c| norm(&f(&c.1))).fold(norm(&sys.b), f64::max);
                ensure!(norm(&r) <= 10f64.powi(-(s.tol as i32)) * norm(&sys.b) + 1e-9 * big, "cg-false-convergence", "{}: Ok with a residual of {} for |b| {}", tag, norm(&r), norm(&sys.b));
            }
        }
        _ => ensure!(!accepted, "cg-lost-convergence", "{}: the criterion accepted, the result is {:?}", tag, out),
    }
    // ---- indefinite operators and preconditioners
    let clear = |p: &(Vec<u64>, Vec<u64>)| {
        let (p, q) = (f(&p.0), f(&p.1));
        let d = dot(&p, &q) / (norm(&p) * norm(&q));
        if d.is_nan() { 0.0 } else { d }
    };
    let dirs: Vec<_> = rec.op.iter().filter(|o| o.0 != bits(&sys.x0)).collect();
    let fired = rec.fired.is_some();
    match out {
        Out::Err(3, ..) => {
            simrt::probe(5);
            ensure!(rec.op.last().map_or(false, |o| clear(o) <= 1e-9), "cg-indefinite", "{}: operator called indefinite, the last direction says otherwise", tag);
        }
        Out::Err(4, ..) => {
            simrt::probe(5);
            ensure!(rec.pre.last().map_or(false, |o| clear(o) <= 1e-9), "cg-indefinite", "{}: preconditioner called indefinite, its last application says otherwise", tag);
        }
        _ if !fired => ensure!(!dirs.iter().any(|o| clear(o) < -1e-9), "cg-indefinite", "{}: a direction of negative curvature was passed over, the result is {:?}", tag, out),
        _ => {}
    }
    if rec.pre.len() > 1 {
        ensure!(!rec.pre[..rec.pre.len() - 1].iter().any(|o| clear(o) < -1e-9), "cg-indefinite", "{}: an indefinite preconditioner was passed over", tag);
    }
    // ---- x is the iterate
    if num == 0 {
        if !(zero && matches!(out, Out::Ok(_))) {
            ensure!(bits(x) == bits(&sys.x0), "cg-wrong-iterate", "{}: no iterations, but x changed from {:?} to {:?}", tag, sys.x0, x);
        }
    } else {
        let mut t = s.clone();
        t.faults.clear();
        t.crit = 3;
        let (o, xt, _) = solve_ws(&mut CgWorkspace::default(), &t, Some(num), false);
        ensure!(matches!(o, Out::Err(_, _, k, _) if k == num) && bits(x) == bits(&xt), "cg-wrong-iterate", "{}: {:?} with x {:?}; {} iterations without failures give {:?} with {:?}", tag, out, x, num, o, xt);
        if fired {
            simrt::probe(9);
        }
        if !nan && s.op < 2 && s.pre < 2 {
            let (xr, steps) = textbook(&sys, num);
            let d: Vec<f64> = x.iter().zip(&xr).map(|(a, b)| a - b).collect();
            let scale = norm(&sys.x0).max(norm(&sys.sol)).max(1e-3 * 10f64.powi(s.exp));
            ensure!(steps < num || norm(&d) <= 1e-6 * scale, "cg-not-cg", "{}: iterate {} is {:?}, textbook CG gives {:?}", tag, num, x, xr);
        }
    }
}
/// preconditioned CG as in the literature
fn textbook(s: &Sys, k: usize) -> (Vec<f64>, usize) {
    let n = s.b.len();
    let mut x = DVector::from_vec(s.x0.clone());
    let mut r = DVector::from_vec(s.b.clone()) - &s.a * &x;
    let pc = |r: &DVector<f64>| DVector::from_fn(n, |i, _| s.m[i] * r[i]);
    let mut z = pc(&r);
    let mut p = z.clone();
    for i in 0..k {
        let ap = &s.a * &p;
        let d = p.dot(&ap);
        if !(d > 0.0) {
            return (x.as_slice().to_vec(), i);
        }
        let rz = r.dot(&z);
        let alpha = rz / d;
        x += alpha * &p;
        r -= alpha * &ap;
        z = pc(&r);
        let beta = r.dot(&z) / rz;
        p = &z + beta * &p;
    }
    (x.as_slice().to_vec(), k)
}

impl Property for S01 {
    type Case = S01Case;
    fn gen(r: &mut Rng, _ctx: GenCtx) -> S01Case {
        let k = *r.pick(&[1usize, 2, 2, 3, 4]);
        let n0 = r.urange(0, 9);
        let solves = (0..k)
            .map(|_| {
                let n = if r.chance(1, 3) { n0 } else { r.urange(0, 9) };
                let nf = *r.pick(&[0usize, 0, 1, 1, 2]);
                if r.chance(1, 150) {
                    // many unknowns and many iterations
                    let n = if r.chance(1, 2) { r.urange(13, 40) } else { r.urange(40, 120) };
                    return Solve {
                        n,
                        seed: r.next() >> 1,
                        op: *r.pick(&[0u8, 1, 4, 4]),
                        pre: *r.pick(&[0u8, 0, 1]),
                        rhs: 0,
                        guess: *r.pick(&[0u8, 1, 3]),
                        crit: *r.pick(&[0u8, 1, 1, 2, 3]),
                        arg: r.urange(0, 3 * n),
                        tol: *r.pick(&[3u8, 6, 10, 16]),
                        max_iter: if r.chance(1, 2) { vec![r.urange(0, 3 * n)] } else { vec![] },
                        faults: (0..nf.min(1)).map(|_| Fault { which: r.below(3) as u8, call: r.urange(0, 3 * n), kind: r.chance(1, 3) as u8 }).collect(),
                        scribble: r.chance(1, 2),
                        exp: 0,
                        store: r.below(3) as u8,
                    };
                }
                Solve {
                    n,
                    seed: r.next() >> 1,
                    op: *r.pick(&[0u8, 0, 0, 0, 1, 2, 3, 4]),
                    pre: *r.pick(&[0u8, 0, 1, 1, 1, 2, 3]),
                    rhs: *r.pick(&[0u8, 0, 0, 0, 0, 1, 2, 3]),
                    guess: *r.pick(&[0u8, 1, 1, 2, 3]),
                    crit: *r.pick(&[0u8, 0, 1, 2, 3]),
                    arg: r.urange(0, 8),
                    tol: *r.pick(&[0u8, 1, 3, 6, 10, 16]),
                    max_iter: if r.chance(1, 2) { vec![r.urange(0, 10)] } else { vec![] },
                    faults: (0..nf).map(|_| Fault { which: r.below(3) as u8, call: if r.chance(2, 3) { r.urange(0, 4) } else { r.urange(0, 12) }, kind: r.chance(1, 3) as u8 }).collect(),
                    scribble: r.chance(1, 2),
                    exp: *r.pick(&[0, 0, 0, 0, 0, 8, 20, -8, -17, -30, -60]),
                    store: *r.pick(&[0u8, 0, 1, 1, 2]),
                }
            })
            .collect();
        S01Case { threads: if r.chance(1, 6) { r.urange(1, 4) } else { 0 }, one_solver: r.chance(1, 3), solves }
    }
    fn valid(c: &S01Case) -> bool {
        c.threads <= 8 && !c.solves.is_empty() && c.solves.len() <= 8 && c.solves.iter().all(|s| s.n <= 120 && s.op < 5 && s.pre < 4 && s.rhs < 4 && s.guess < 4 && s.crit < 4 && s.tol <= 16 && s.max_iter.len() < 2 && s.exp.abs() <= 60 && s.store < 3 && s.faults.iter().all(|f| f.which < 3 && f.kind < 2))
    }
    fn run(c: S01Case) {
        if c.solves.len() > 1 || c.solves.iter().any(|s| !s.faults.is_empty()) {
            nontrivial();
        }
        let large = c.solves.iter().map(|s| s.n).max().unwrap();
        if large > 12 {
            simrt::thin(large as u64);
        }
        // (the operator of a large system runs on the caller only: a bound on the length of a run)
        if c.threads > 0 && large <= 40 {
            simrt::probe(11);
            let t = c.threads;
            in_pool(t, move || run_s01(&c, true));
        } else {
            run_s01(&c, false);
        }
    }
}
fn run_s01(c: &S01Case, par: bool) {
    let mut results = Vec::new();
    if c.one_solver {
        // one solver object with everything in it; its operator, preconditioner and criterion change their minds between solves
        let cur = shared(&c.solves[0], par);
        let limit = c.solves[0].max_iter.first().copied();
        let mut cg = ConjugateGradient::new().with_operator(Op(cur.clone())).with_preconditioner(Pre(cur.clone())).with_stopping_criterion(Crit(cur.clone()));
        if let Some(m) = limit {
            cg = cg.with_max_iter(m);
        }
        for s in &c.solves {
            let sys = simrt::quiet(|| system(s));
            let b = DVector::from_vec(sys.b.clone());
            let mut x = DVector::from_vec(sys.x0.clone());
            {
                let mut cur = cur.borrow_mut();
                // what the criterion remembers stays, as it would in a real one
                let since_reset = cur.rec.since_reset;
                cur.s = s.clone();
                cur.sys = Rc::new(sys);
                cur.rec = Rec { since_reset, ..Rec::default() };
            }
            lib_call();
            let out = outcome(catch(|| cg.solve_with_guess(&b, &mut x)));
            results.push((out, x.as_slice().to_vec(), cur.borrow().rec.clone(), limit));
        }
    } else {
        let mut ws = CgWorkspace::default();
        for s in &c.solves {
            lib_call();
            let limit = s.max_iter.first().copied();
            let (o, x, r) = solve_ws(&mut ws, s, limit, par);
            results.push((o, x, r, limit));
        }
    }
    let mut failed = false;
    for (i, (s, (out, x, rec, limit))) in c.solves.iter().zip(&results).enumerate() {
        let tag = format!("solve {} of {}", i + 1, c.solves.len());
        match out {
            Out::Err(k, ..) if *k <= 2 => simrt::probe(1 + *k as usize),
            Out::Err(5, ..) => simrt::probe(4),
            _ => {}
        }
        if failed {
            simrt::probe(8);
            simrt::note_fault(FK_FAILED_BEFORE);
        }
        failed |= !matches!(out, Out::Ok(_));
        if i > 0 && c.solves[i - 1].n != s.n {
            simrt::probe(10);
        }
        // the same with a fresh workspace
        let (o2, x2, r2) = solve_ws(&mut CgWorkspace::default(), s, *limit, false);
        ensure!(*out == o2 && bits(x) == bits(&x2) && *rec == r2, "cg-workspace-history", "{}: {:?} with x {:?}; a fresh solver gives {:?} with x {:?}", tag, out, x, o2, x2);
        simrt::quiet(|| check_solve(s, *limit, out, x, rec, &tag));
    }
}

// ------------------------------------------------------------------------------------------------ S02
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Newt {
    n: usize,
    seed: u64,
    cubic: bool,
    /// 0 exact, 1 scaled, 2 reversed, 3 rough
    jac: u8,
    /// 0 newton(), 1 NoLineSearch, 2 BacktrackingLineSearch, 3 own
    ls: u8,
    /// tolerance: 10^-tol, or 100 zero, 101 negative, 102 NaN, 103 huge
    tol: u8,
    max_iter: Vec<usize>,
    guess: u8,
    faults: Vec<Fault>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct S02Case {
    garbage: u64,
    runs: Vec<Newt>,
}
struct S02;

fn newt_tol(t: u8) -> f64 {
    match t {
        100 => 0.0,
        101 => -1.0,
        102 => f64::NAN,
        103 => 1e30,
        t => 10f64.powi(-(t as i32)),
    }
}
#[derive(Default, Clone, PartialEq, Debug)]
struct NRec {
    evals: Vec<(Vec<u64>, Vec<u64>)>,
    /// x, right-hand side, solution (or none)
    jacs: Vec<(Vec<u64>, Vec<u64>, Option<Vec<u64>>)>,
    /// x, f, direction, worked
    steps: Vec<(Vec<u64>, Vec<u64>, Vec<u64>, bool)>,
    calls: [usize; 3],
    fired: Option<(u8, usize, u8)>,
    after_fire: bool,
    saw_nan: bool,
}
struct NCur {
    s: Newt,
    rec: NRec,
}
type NShared = Rc<RefCell<NCur>>;
fn nenter(c: &NShared, which: u8) -> Option<(u8, usize)> {
    simrt::callback_point();
    let mut c = c.borrow_mut();
    if matches!(c.rec.fired, Some((_, _, k)) if k < 2) {
        c.rec.after_fire = true;
    }
    let call = c.rec.calls[which as usize];
    c.rec.calls[which as usize] += 1;
    let f = c.s.faults.iter().find(|f| f.which == which && f.call == call).map(|f| f.kind);
    let f = f.map(|k| if which == 0 && k == 0 { 2 } else { k });
    let f = if f.is_none() && which == 1 && call >= 40 { Some(0) } else { f };
    if let Some(k) = f {
        if k < 2 {
            c.rec.fired = Some((which, call, k));
        }
        simrt::note_fault(if k == 1 { FK_PANIC } else { FK_ERR });
        simrt::event(1200 + which as u64 * 64 + call as u64);
    }
    f.map(|k| (k, call))
}
fn coeff(s: &Newt, i: usize, j: usize) -> f64 {
    let u = unit(mix(s.seed ^ (i * 31 + j) as u64));
    if i == j { 1.0 + u } else { (u - 0.5) / s.n as f64 }
}
fn func(s: &Newt, x: &[f64]) -> Vec<f64> {
    (0..s.n)
        .map(|i| {
            let lin: f64 = (0..s.n).map(|j| coeff(s, i, j) * x[j]).sum();
            let b = 6.0 * (unit(mix(s.seed ^ 0xb ^ (i as u64) << 17)) - 0.5);
            lin + if s.cubic { x[i] * x[i] * x[i] } else { 0.0 } - b
        })
        .collect()
}
fn jacobian(s: &Newt, x: &[f64]) -> DMatrix<f64> {
    DMatrix::from_fn(s.n, s.n, |i, j| coeff(s, i, j) + if i == j && s.cubic { 3.0 * x[i] * x[i] } else { 0.0 })
}
struct Fun(NShared);
impl VectorFunction<f64> for Fun {
    fn dimension(&self) -> usize {
        self.0.borrow().s.n
    }
    fn eval_into(&mut self, out: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        let fault = nenter(&self.0, 0);
        if let Some((1, call)) = fault {
            out.iter_mut().for_each(|o| *o = 0.0);
            std::panic::panic_any(InjectedPanic(call));
        }
        let mut c = self.0.borrow_mut();
        let xs = v(x);
        let mut y = func(&c.s, &xs);
        if fault.is_some() {
            y.iter_mut().for_each(|y| *y = f64::NAN);
        }
        c.rec.saw_nan |= y.iter().any(|y| y.is_nan());
        out.copy_from_slice(&y);
        c.rec.evals.push((bits(&xs), bits(&y)));
    }
}
impl DifferentiableVectorFunction<f64> for Fun {
    fn solve_jacobian_system(&mut self, sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let fault = nenter(&self.0, 1);
        let mut c = self.0.borrow_mut();
        let (xs, rs) = (v(x), v(rhs));
        match fault {
            Some((1, call)) => {
                drop(c);
                std::panic::panic_any(InjectedPanic(call));
            }
            Some((0, call)) => {
                sol.iter_mut().for_each(|s| *s = 7.0);
                c.rec.jacs.push((bits(&xs), bits(&rs), None));
                return Err(Box::new(Inj { which: 1, call }));
            }
            _ => {}
        }
        let j = jacobian(&c.s, &xs);
        let d = if xs.is_empty() { None } else { simrt::quiet(|| j.lu().solve(&DVector::from_vec(rs.clone()))) };
        let d = d.map(|v| v.as_slice().to_vec()).unwrap_or(vec![0.0; xs.len()]);
        let call = c.rec.calls[1] as u64;
        let seed = c.s.seed;
        let factor = match c.s.jac {
            1 => 0.5,
            2 => -1.0,
            _ => 1.0,
        };
        let mut d: Vec<f64> = d.iter().enumerate().map(|(i, d)| d * factor * if c.s.jac == 3 { 0.5 + unit(mix(seed ^ call << 9 ^ i as u64)) } else { 1.0 }).collect();
        if fault.is_some() {
            d.iter_mut().for_each(|d| *d = f64::NAN);
        }
        sol.copy_from_slice(&d);
        c.rec.jacs.push((bits(&xs), bits(&rs), Some(bits(&d))));
        Ok(())
    }
}
/// full steps times 0.5 or 1, and failures
struct Ls(NShared);
impl LineSearch<f64, Fun> for Ls {
    fn step(&mut self, function: &mut Fun, mut f: DVectorViewMut<f64>, mut x: DVectorViewMut<f64>, d: DVectorView<f64>) -> Result<f64, Box<dyn Error>> {
        let fault = nenter(&self.0, 2);
        let e = (bits(x.as_slice()), bits(f.as_slice()), bits(&v(&d)), fault.is_none());
        self.0.borrow_mut().rec.steps.push(e);
        match fault {
            Some((1, call)) => std::panic::panic_any(InjectedPanic(call)),
            Some((_, call)) => {
                let kind = self.0.borrow().rec.fired;
                if kind.is_none() {
                    self.0.borrow_mut().rec.fired = Some((2, call, 0));
                }
                return Err(Box::new(Inj { which: 2, call }));
            }
            None => {}
        }
        let a = if self.0.borrow().s.seed % 2 == 0 { 1.0 } else { 0.5 };
        x.axpy(a, &d, 1.0);
        function.eval_into(&mut f, &DVectorView::from(&x));
        Ok(a)
    }
}
#[derive(Clone, PartialEq, Debug)]
enum NOut {
    Ok(usize),
    Max(usize),
    Jac(Option<(u8, usize)>),
    Line(Option<(u8, usize)>),
    Panic(String),
}
struct NRes {
    out: NOut,
    x: Vec<f64>,
    f: Vec<f64>,
    rec: NRec,
}
fn newt_x0(s: &Newt) -> Vec<f64> {
    (0..s.n)
        .map(|i| match s.guess {
            0 => 0.0,
            1 => 4.0 * unit(mix(s.seed ^ 0xee ^ (i as u64) << 13)) - 2.0,
            _ => 100.0 * unit(mix(s.seed ^ 0xee ^ (i as u64) << 13)),
        })
        .collect()
}
fn newt(s: &Newt, f: &mut DVector<f64>, dx: &mut DVector<f64>) -> NRes {
    let c: NShared = Rc::new(RefCell::new(NCur { s: s.clone(), rec: NRec::default() }));
    let mut x = DVector::from_vec(newt_x0(s));
    let settings = NewtonSettings { max_iterations: s.max_iter.first().copied(), tolerance: newt_tol(s.tol) };
    let r = catch(|| {
        let fun = Fun(c.clone());
        match s.ls {
            0 => newton(fun, &mut x, &mut *f, &mut *dx, settings),
            1 => newton_line_search(fun, &mut x, &mut *f, &mut *dx, settings, &mut NoLineSearch {}),
            2 => newton_line_search(fun, &mut x, &mut *f, &mut *dx, settings, &mut BacktrackingLineSearch {}),
            _ => newton_line_search(fun, &mut x, &mut *f, &mut *dx, settings, &mut Ls(c.clone())),
        }
    });
    let inj = |e: &Box<dyn Error>| e.downcast_ref::<Inj>().map(|i| (i.which, i.call));
    let out = match r {
        Ok(Ok(k)) => NOut::Ok(k),
        Ok(Err(NewtonError::MaximumIterationsReached(m))) => NOut::Max(m),
        Ok(Err(NewtonError::JacobianError(e))) => NOut::Jac(inj(&e)),
        Ok(Err(NewtonError::LineSearchError(e))) => NOut::Line(inj(&e)),
        Err(p) => NOut::Panic(payload(&*p)),
    };
    let rec = c.borrow().rec.clone();
    NRes { out, x: x.as_slice().to_vec(), f: f.as_slice().to_vec(), rec }
}

fn check_newt(s: &Newt, r: &NRes, tag: &str) {
    let NRes { out, x, f: fx, rec } = r;
    let tol = newt_tol(s.tol);
    ensure!(!rec.after_fire, "newton-continued-after-failure", "{}: a callback was called after one had failed ({:?})", tag, out);
    match (&rec.fired, out) {
        (Some((_, call, 1)), NOut::Panic(p)) => {
            simrt::probe(4);
            ensure!(*p == format!("InjectedPanic({})", call), "newton-panic-changed", "{}: panic {} instead of the injected one at call {}", tag, p, call);
            return;
        }
        (Some((1, call, 0)), NOut::Jac(i)) => ensure!(*i == Some((1, *call)), "newton-wrong-error", "{}: Jacobian failed at call {}, the result is {:?}", tag, call, out),
        (Some((2, call, 0)), NOut::Line(i)) => ensure!(*i == Some((2, *call)), "newton-wrong-error", "{}: line search failed at call {}, the result is {:?}", tag, call, out),
        (Some(f), _) => simrt::fail("newton-failure-lost", &format!("{}: callback failed ({:?}), the result is {:?}", tag, f, out)),
        (None, NOut::Panic(p)) => simrt::fail("newton-panicked", &format!("{}: panic {} without any callback failing", tag, p)),
        (None, NOut::Jac(_)) => simrt::fail("newton-invented-error", &format!("{}: no Jacobian failed, the result is {:?}", tag, out)),
        (None, NOut::Line(_)) => ensure!(s.ls == 2, "newton-invented-error", "{}: no line search failed, the result is {:?}", tag, out),
        _ => {}
    }
    let worked = rec.jacs.iter().filter(|j| j.2.is_some()).count();
    let steps = match out {
        NOut::Line(_) => worked - 1,
        _ => worked,
    };
    if let Some(&m) = s.max_iter.first() {
        ensure!(rec.jacs.len() <= m, "newton-too-many-iterations", "{}: {} steps tried with a limit of {}", tag, rec.jacs.len(), m);
    }
    // ---- every step starts from the current iterate, its function value, and was needed
    let mut at = bits(&newt_x0(s));
    for (k, j) in rec.jacs.iter().enumerate() {
        ensure!(j.0 == at, "newton-wrong-iterate", "{}: step {} starts from {:?} instead of {:?}", tag, k, f(&j.0), f(&at));
        let e = rec.evals.iter().rev().find(|e| e.0 == j.0 && e.1 == j.1);
        ensure!(e.is_some(), "newton-wrong-function-value", "{}: the right-hand side of step {} is not the function value at its iterate", tag, k);
        let fj = norm(&f(&j.1));
        ensure!(!(fj <= tol * (1.0 - 1e-12)), "newton-continued-after-convergence", "{}: |f| = {} at step {} with tolerance {}", tag, fj, k, tol);
        let Some(sol) = &j.2 else { break };
        let next = rec.jacs.get(k + 1).map(|n| n.0.clone()).unwrap_or_else(|| bits(x));
        if k + 1 == rec.jacs.len() && matches!(out, NOut::Line(_)) {
            break;
        }
        let (xs, d, nx) = (f(&at), f(sol), f(&next));
        let dd = dot(&d, &d);
        let along = if dd > 0.0 { (0..s.n).map(|i| (xs[i] - nx[i]) * d[i]).sum::<f64>() / dd } else { 1.0 };
        let alphas: Vec<f64> = match s.ls {
            0 | 1 => vec![1.0],
            // any step along the direction, forwards and not beyond its end
            2 => vec![along.clamp(0.0, 1.0)],
            _ => vec![if s.seed % 2 == 0 { 1.0 } else { 0.5 }],
        };
        let m = norm(&xs) + norm(&d);
        if m.is_finite() {
            let fits = |a: f64| {
                let e: Vec<f64> = (0..s.n).map(|i| nx[i] - (xs[i] - a * d[i])).collect();
                norm(&e) <= 1e-12 * m
            };
            ensure!(alphas.iter().any(|&a| fits(a)), "newton-wrong-step", "{}: step {} goes from {:?} along {:?} to {:?}", tag, k, xs, d, nx);
            if s.ls == 2 && !fits(1.0) {
                simrt::probe(8);
            }
        }
        if s.ls == 2 {
            let after = rec.jacs.get(k + 1).map(|n| norm(&f(&n.1))).unwrap_or_else(|| norm(fx));
            ensure!(after <= fj, "newton-backtracking-increased", "{}: |f| went from {} to {} in step {} with backtracking", tag, fj, after, k);
        }
        at = next;
    }
    for (k, st) in rec.steps.iter().enumerate() {
        let j = &rec.jacs[k];
        let neg: Vec<f64> = f(j.2.as_ref().unwrap()).iter().map(|d| -d).collect();
        ensure!(st.0 == j.0 && st.1 == j.1 && f(&st.2).iter().zip(&neg).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())), "newton-line-search-arguments", "{}: line search {} got x {:?}, f {:?}, direction {:?}", tag, k, f(&st.0), f(&st.1), f(&st.2));
    }
    // ---- what is returned
    if !matches!(out, NOut::Line(_)) {
        ensure!(bits(x) == at, "newton-wrong-iterate", "{}: x is {:?}, the last iterate is {:?}", tag, x, f(&at));
        let last = rec.evals.iter().rev().find(|e| e.0 == at);
        ensure!(last.map_or(false, |e| e.1 == bits(fx)), "newton-wrong-function-value", "{}: f is {:?}, which is not the function value at x", tag, fx);
    }
    let nf = norm(fx);
    match out {
        NOut::Ok(k) => {
            simrt::probe(0);
            if *k == 0 {
                simrt::probe(6);
            }
            ensure!(*k == steps, "newton-step-count", "{}: Ok({}) after {} steps", tag, k, steps);
            ensure!(nf <= tol * (1.0 + 1e-12), "newton-false-convergence", "{}: Ok({}) with |f| = {} and tolerance {}", tag, k, nf, tol);
        }
        NOut::Max(m) => {
            simrt::probe(3);
            ensure!(s.max_iter.first() == Some(m) && steps == *m, "newton-iteration-limit", "{}: MaximumIterationsReached({}) after {} steps with limit {:?}", tag, m, steps, s.max_iter);
            ensure!(!(nf <= tol * (1.0 - 1e-12)), "newton-lost-convergence", "{}: iteration limit reported with |f| = {} and tolerance {}", tag, nf, tol);
        }
        NOut::Jac(_) => simrt::probe(1),
        NOut::Line(_) => {
            simrt::probe(2);
            if s.ls == 2 {
                // it gave up: steps of all sizes were tried and none will do
                let j = rec.jacs.last().unwrap();
                let (start, d, f0) = (f(&j.0), f(j.2.as_ref().unwrap()), norm(&f(&j.1)));
                let from = rec.evals.iter().rposition(|e| e.0 == j.0 && e.1 == j.1).map_or(0, |i| i + 1);
                let size = |x: &[u64]| {
                    let e: Vec<f64> = f(x).iter().zip(&start).map(|(a, b)| a - b).collect();
                    norm(&e) / norm(&d)
                };
                let tried: Vec<(f64, f64)> = rec.evals[from..].iter().map(|e| (size(&e.0), norm(&f(&e.1)))).collect();
                if norm(&start) + norm(&d) < 1e6 && norm(&d) > 1e-3 {
                    ensure!(tried.iter().any(|t| t.0 > 0.9) && tried.iter().any(|t| t.0 < 1e-4), "newton-gave-up", "{}: the backtracking line search gave up after steps {:?} (length, |f|) from {}", tag, tried, f0);
                }
                // (reject no step that nearly halves it)
                ensure!(f0.is_nan() || tried.iter().all(|t| !(t.1 < 0.7 * f0)), "newton-gave-up", "{}: the backtracking line search gave up after steps {:?} (length, |f|) from {}", tag, tried, f0);
            }
        }
        NOut::Panic(_) => {}
    }
    if rec.saw_nan {
        simrt::probe(5);
    }
}
impl Property for S02 {
    type Case = S02Case;
    fn gen(r: &mut Rng, _ctx: GenCtx) -> S02Case {
        let k = *r.pick(&[1usize, 1, 2, 3]);
        let n = if r.chance(1, 100) { r.urange(7, 40) } else { r.urange(0, 6) };
        let runs = (0..k)
            .map(|_| {
                let nf = *r.pick(&[0usize, 0, 1, 1, 2]);
                Newt {
                    n,
                    seed: r.next() >> 1,
                    cubic: r.chance(2, 3),
                    jac: *r.pick(&[0u8, 0, 0, 1, 2, 3]),
                    ls: r.below(4) as u8,
                    tol: *r.pick(&[0u8, 2, 6, 10, 10, 16, 100, 101, 102, 103]),
                    max_iter: if r.chance(1, 2) { vec![if r.chance(1, 10) { r.urange(0, 39) } else { r.urange(0, 9) }] } else { vec![] },
                    guess: *r.pick(&[0u8, 1, 1, 2]),
                    faults: (0..nf).map(|_| Fault { which: r.below(3) as u8, call: if r.chance(2, 3) { r.urange(0, 4) } else { r.urange(0, 12) }, kind: r.below(3) as u8 }).collect(),
                }
            })
            .collect();
        S02Case { garbage: r.next() >> 1, runs }
    }
    fn valid(c: &S02Case) -> bool {
        !c.runs.is_empty() && c.runs.len() < 8 && c.runs.iter().all(|s| s.n == c.runs[0].n && s.n <= 40 && s.jac < 4 && s.ls < 4 && (s.tol <= 16 || (100..104).contains(&s.tol)) && s.max_iter.len() < 2 && s.guess < 3 && s.faults.iter().all(|f| f.which < 3 && f.kind < 3))
    }
    fn run(c: S02Case) {
        if c.runs.len() > 1 || c.runs.iter().any(|s| !s.faults.is_empty()) {
            nontrivial();
        }
        let n = c.runs[0].n;
        let g = |k: u64| {
            DVector::from_fn(n, |i, _| match mix(c.garbage ^ k << 40 ^ i as u64) % 4 {
                0 => 0.0,
                1 => f64::NAN,
                2 => f64::INFINITY,
                _ => 3.5,
            })
        };
        let (mut fb, mut dx) = (g(1), g(2));
        let mut failed = false;
        for (i, s) in c.runs.iter().enumerate() {
            let tag = format!("solve {} of {}", i + 1, c.runs.len());
            lib_call();
            let r = newt(s, &mut fb, &mut dx);
            if failed {
                simrt::probe(7);
                simrt::note_fault(FK_FAILED_BEFORE);
            }
            failed |= !matches!(r.out, NOut::Ok(_));
            let q = newt(s, &mut DVector::zeros(n), &mut DVector::zeros(n));
            ensure!(r.out == q.out && bits(&r.x) == bits(&q.x) && r.rec == q.rec && (matches!(r.out, NOut::Panic(_)) || bits(&r.f) == bits(&q.f)), "newton-buffer-history", "{}: {:?} with x {:?}; fresh buffers give {:?} with x {:?}", tag, r.out, r.x, q.out, q.x);
            check_newt(s, &r, &tag);
        }
    }
}
