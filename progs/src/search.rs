//! Search over generated programs: batches are compiled in parallel, failures are
//! shrunk by structural reductions of the case, also in batches.

use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::gen::Rng;
use crate::run::{hash_of, Ctx, WORKERS};
use crate::rustc::{Outcome, Rustc};

pub struct Program<M> {
    pub src: String,
    /// What the oracle needs besides the case.
    pub meta: M,
    pub nontrivial: bool,
}

pub struct Part<'a, C, M> {
    pub name: &'a str,
    pub rule: &'a str,
    pub cases: u64,
    pub batch: usize,
    pub run: bool,
    pub gen: &'a (dyn Fn(&mut Rng) -> C + Sync),
    pub build: &'a (dyn Fn(&C) -> Program<M> + Sync),
    pub judge: &'a (dyn Fn(&C, &Program<M>, &Outcome) -> Result<(), String> + Sync),
}

pub fn search<C, M>(cx: &mut Ctx, rc: &Rustc, p: Part<C, M>)
where
    C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + PartialEq,
    M: Send + Sync,
{
    let seed = cx.part_seed(p.name);
    let cases: Vec<C> = if cx.replay.is_some() {
        Vec::new()
    } else {
        (0..p.cases)
            .map(|i| (p.gen)(&mut Rng(hash_of(&(seed, i)))))
            .collect()
    };
    fixed(cx, rc, p, cases, "random")
}

/// Decide a given list of cases.
pub fn fixed<C, M>(cx: &mut Ctx, rc: &Rustc, p: Part<C, M>, cases: Vec<C>, mode: &str)
where
    C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + PartialEq,
    M: Send + Sync,
{
    let one = |tag: &str, cs: &[C]| -> Vec<Result<(), String>> {
        let ps: Vec<Program<M>> = cs.iter().map(|c| (p.build)(c)).collect();
        let srcs: Vec<String> = ps.iter().map(|x| x.src.clone()).collect();
        let os = rc.batch(tag, &srcs, p.run);
        cs.iter()
            .zip(&ps)
            .zip(&os)
            .map(|((c, x), o)| {
                (p.judge)(c, x, o).map_err(|e| format!("{e}\nprogram:\n{}", x.src))
            })
            .collect()
    };
    if cx.replay_part(p.name, |c: &C| one("replay", std::slice::from_ref(c)).remove(0)) {
        return;
    }
    let next = AtomicUsize::new(0);
    let failures: Mutex<Vec<(C, String)>> = Mutex::new(Vec::new());
    let stats = Mutex::new((0u64, 0u64, Vec::<u64>::new(), Vec::<Value>::new()));
    let chunks: Vec<&[C]> = cases.chunks(p.batch).collect();
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (next, failures, stats, chunks, one, p) = (&next, &failures, &stats, &chunks, &one, &p);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    let Some(cs) = chunks.get(k) else { break };
                    if !failures.lock().unwrap().is_empty() {
                        break;
                    }
                    let rs = one(&format!("w{w}"), cs);
                    let mut st = stats.lock().unwrap();
                    for (c, r) in cs.iter().zip(rs) {
                        st.0 += 1;
                        let x = (p.build)(c);
                        if x.nontrivial {
                            st.1 += 1;
                            st.2.push(hash_of(&x.src));
                            if st.3.len() < 3 && st.0 % 17 == 5 {
                                st.3.push(json!(x.src));
                            }
                        }
                        if let Err(m) = r {
                            failures.lock().unwrap().push((c.clone(), m));
                        }
                    }
                })
                .unwrap();
        }
    });
    let (evals, nt, hashes, samples) = stats.into_inner().unwrap();
    cx.add_distinct(p.name, hashes);
    for s in samples {
        cx.add_sample(p.name, s);
    }
    let inv = rc.invocations.load(Ordering::Relaxed);
    cx.note(p.name, p.rule, evals, nt, json!({"mode": mode, "compiler_runs_so_far": inv}));
    let mut failures = failures.into_inner().unwrap();
    let size = |c: &C| serde_json::to_string(c).unwrap().len();
    let known = |c: &C| cx.known_for(p.name, &serde_json::to_value(c).unwrap()).is_some();
    failures.sort_by_key(|(c, _)| (known(c), size(c)));
    let Some((mut best, mut msg)) = failures.into_iter().next() else { return };
    // Shrink.
    let start = Instant::now();
    let mut seen: std::collections::HashSet<u64> = Default::default();
    'rounds: while start.elapsed() < Duration::from_secs(90) {
        let v = serde_json::to_value(&best).unwrap();
        let mut cands: Vec<C> = Vec::new();
        for c in reductions(&v) {
            let Ok(c) = serde_json::from_value::<C>(c) else { continue };
            let s = serde_json::to_string(&c).unwrap();
            if c != best && seen.insert(hash_of(&s)) {
                cands.push(c);
            }
        }
        cands.sort_by_key(|c| size(c));
        if cands.is_empty() {
            break;
        }
        for group in cands.chunks(96) {
            let per = group.len().div_ceil(WORKERS as usize);
            let found: Mutex<Vec<(C, String)>> = Mutex::new(Vec::new());
            std::thread::scope(|s| {
                for (w, cs) in group.chunks(per).enumerate() {
                    let (found, one) = (&found, &one);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            for (c, r) in cs.iter().zip(one(&format!("w{w}"), cs)) {
                                if let Err(m) = r {
                                    found.lock().unwrap().push((c.clone(), m));
                                }
                            }
                        })
                        .unwrap();
                }
            });
            let mut found = found.into_inner().unwrap();
            found.sort_by_key(|(c, _)| size(c));
            if let Some((c, m)) = found.into_iter().next() {
                (best, msg) = (c, m);
                continue 'rounds;
            }
            if start.elapsed() > Duration::from_secs(90) {
                break;
            }
        }
        break;
    }
    cx.report(p.name, &best, &msg);
}

/// All structures obtained by one reduction step somewhere in the value.
fn reductions(v: &Value) -> Vec<Value> {
    let mut res = Vec::new();
    match v {
        Value::Array(a) => {
            if a.len() > 2 {
                let h = a.len() / 2;
                res.push(json!(a[..h]));
                res.push(json!(a[h..]));
            }
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                res.push(json!(b));
            }
            for i in 0..a.len() {
                for x in reductions(&a[i]) {
                    let mut b = a.clone();
                    b[i] = x;
                    res.push(json!(b));
                }
            }
        }
        Value::Object(o) => {
            // A tagged variant: something simple instead.
            if o.len() == 1 && o.keys().next().unwrap().starts_with(char::is_uppercase) {
                res.push(json!({"Word": 0}));
            }
            for (k, x) in o {
                for y in reductions(x) {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    res.push(Value::Object(b));
                }
            }
        }
        Value::Number(n) => {
            if let Some(n) = n.as_i64() {
                if n != 0 {
                    res.push(json!(0));
                    if n.abs() > 1 {
                        res.push(json!(n / 2));
                        res.push(json!(n - n.signum()));
                    }
                }
            }
        }
        Value::Bool(true) => res.push(json!(false)),
        Value::String(s) if s.starts_with(char::is_uppercase) => res.push(json!({"Word": 0})),
        _ => {}
    }
    if !v.is_null() && !v.is_array() {
        res.push(Value::Null);
    }
    res
}
