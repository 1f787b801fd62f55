//! C09: the spacing adapter on random sequences and random spacers (also called past the end).
use crate::spacing_iterator::SpacedIterator;
use hcore::*;
pub fn run(rep: &mut Report, seed: u64, secs: f64) {
    let mut rng = Rng::new(seed);
    let clock = Clock::new(secs);
    while clock.more() && !rep.full() {
        let n = rng.below(9);
        let v: Vec<u64> = (0..n).map(|_| rng.below(5) as u64).collect();
        let salt = rng.next();
        let sp = move |l: &u64, r: &u64| -> Option<u64> { let x = (l * 31 + r * 7 + salt) % 11; if x % 2 == 0 { Some(100 + x) } else { None } };
        let mut want = vec![];
        for i in 0..n { want.push(v[i]); if i + 1 < n { if let Some(s) = sp(&v[i], &v[i + 1]) { want.push(s); } } }
        let key = format!("{v:?} salt {}", salt % 11);
        rep.case(&key, n > 1);
        let got = guarded(|| { let mut it = v.clone().into_iter().spaced_with(sp); let mut o = vec![]; while let Some(x) = it.next() { o.push(x); if o.len() > 99 { break; } } if it.next().is_some() { o.push(9999); } o });
        match got { Ok(g) => if g != want { rep.violation("spacing", &key, &format!("{want:?}"), &format!("{g:?}")); }, Err(p) => rep.violation("spacing", &key, &format!("{want:?}"), &format!("panic: {p}")) }
        if rep.evals > 200_000 { break; }
    }
}
