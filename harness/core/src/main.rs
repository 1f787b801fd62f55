use hcore::*;
mod parse;
mod render;
mod tree;
fn main() {
    let a = args();
    if a.prop == "parse1" { let mut t = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap(); print!("{}", tree::answer(&t)); return; }
    let quick = std::env::var("VERIF_TIER").map(|t| t != "thorough").unwrap_or(true);
    let mut rep = Report::new();
    let mut rng = Rng::new(a.seed);
    let clock = Clock::new(a.secs);
    match a.prop.as_str() {
        "C01" => render::c01(&mut rep, &mut rng, &clock),
        "C02" => render::c02(&mut rep, &mut rng, &clock),
        "C03" => parse::c03(&mut rep, &mut rng, &clock),
        "C04" => tree::c04(&mut rep, &mut rng, &clock, quick),
        "C14" => tree::c14(&mut rep, &mut rng, &clock),
        p => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    rep.print();
}
