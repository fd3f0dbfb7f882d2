mod angles;
mod axes;
mod core;
mod crs;
mod geodesy;
mod geometry;
mod mathk;
mod projections;
mod screen;
mod session;
mod text;

use crate::core::*;

fn prop(id: &str) -> Option<Box<dyn DynProp>> {
    Some(match id {
        "C01" => Box::new(angles::C01::new()),
        "C02" => Box::new(angles::C02::new()),
        "C03" => Box::new(angles::C03),
        "C04" => Box::new(angles::C04),
        "C05" => Box::new(axes::C05),
        "C06" => Box::new(axes::C06),
        "C07" => Box::new(axes::C07::new()),
        "C08" => Box::new(geodesy::C08),
        "C09" => Box::new(geodesy::C09),
        "C10" => Box::new(geodesy::C10::new()),
        "C11" => Box::new(geodesy::C11),
        "C12" => Box::new(geodesy::C12),
        "C13" => Box::new(projections::Fwd(vec![1, 2, 6])),
        "C14" => Box::new(projections::Fwd(vec![3])),
        "C15" => Box::new(projections::C15),
        "C16" => Box::new(projections::C16),
        "C17" => Box::new(projections::Fwd(vec![4, 5])),
        "C18" => Box::new(crs::C18),
        "C19" => Box::new(crs::C19),
        "C20" => Box::new(text::C20),
        "C21" => Box::new(crs::C21),
        "C22" => Box::new(geodesy::C22),
        "C23" => Box::new(geodesy::C23),
        "C24" => Box::new(geodesy::C24),
        "C25" => Box::new(geometry::Lines::new(25)),
        "C26" => Box::new(geometry::Lines::new(26)),
        "C27" => Box::new(geometry::Lines::new(27)),
        "C28" => Box::new(mathk::C28),
        "C30" => Box::new(session::C30::new()),
        "C31" => Box::new(session::C31::new()),
        _ => return None,
    })
}

trait DynProp {
    fn dyn_generate(&mut self, g: &mut Gen, rec: &mut Rec);
    fn dyn_call(&mut self, op: u32, inp: &[f64]) -> Event;
}
impl<P: Prop> DynProp for P {
    fn dyn_generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        self.generate(g, rec)
    }
    fn dyn_call(&mut self, op: u32, inp: &[f64]) -> Event {
        self.call(op, inp)
    }
}

/// geoprobe gen <id> <seed> <tier> <dict-file> <out>
/// geoprobe script <id> <script-file> <out>       (each line: op arg...)
fn main() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = info.to_string();
            if !calling() {
                eprintln!("{l}");
            }
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let mut p = match prop(&a[2]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", a[2]);
            std::process::exit(2);
        }
    };
    match a[1].as_str() {
        // one question to one object of C30, and nothing else, in this process
        "fresh" => session::fresh_main(&a[3..].iter().map(|t| t.parse().unwrap()).collect::<Vec<u32>>()),
        "gen" => {
            let seed: u64 = a[3].parse().unwrap();
            let dict: Vec<f64> = std::fs::read_to_string(&a[5])
                .unwrap_or_default()
                .split_whitespace()
                .filter_map(|t| t.parse().ok())
                .collect();
            watchdog(a[6].clone(), 20);
            let mut g = Gen {
                r: Rng::new(seed),
                dict,
                thorough: a[4] == "thorough",
            };
            let mut rec = Rec::new(seed);
            p.dyn_generate(&mut g, &mut rec);
            rec.write(&a[6]);
        }
        "script" => {
            watchdog(a[4].clone(), 20);
            let mut rec = Rec::new(0);
            for line in std::fs::read_to_string(&a[3]).unwrap().lines() {
                let mut it = line.split_whitespace();
                let op: u32 = match it.next() {
                    Some(t) => t.parse().unwrap(),
                    None => continue,
                };
                if op == 0 {
                    p = prop(&a[2]).unwrap();
                    rec.mark();
                    continue;
                }
                let inp: Vec<f64> = it.map(|t| t.parse().unwrap()).collect();
                rec.push_seq(p.dyn_call(op, &inp));
            }
            rec.write(&a[4]);
        }
        _ => std::process::exit(2),
    }
}
