//! Concurrent callers under Miri: seeded preemption, weak-memory emulation, full undefined-behaviour checks.
//! The scenario (who calls what) comes from the first argument, the schedule from Miri's own seed.
use seuif97::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 33) % n
    }
}
#[derive(Clone, Copy, Debug)]
struct Op {
    f: u8,
    x: f64,
    y: f64,
    o: i32,
    reg: i32,
}
fn call(a: Op) -> f64 {
    if a.reg > 0 {
        let o = (a.o, a.reg);
        return match a.f {
            0 => pt(a.x, a.y, o),
            1 => ph(a.x, a.y, o),
            2 => ps(a.x, a.y, o),
            3 => pv(a.x, a.y, o),
            4 => tv(a.x, a.y, o),
            5 => th(a.x, a.y, o),
            6 => ts(a.x, a.y, o),
            _ => hs(a.x, a.y, o),
        };
    }
    let o = a.o;
    match a.f {
        0 => pt(a.x, a.y, o),
        1 => ph(a.x, a.y, o),
        2 => ps(a.x, a.y, o),
        3 => pv(a.x, a.y, o),
        4 => tv(a.x, a.y, o),
        5 => th(a.x, a.y, o),
        6 => ts(a.x, a.y, o),
        7 => hs(a.x, a.y, o),
        8 => px(a.x, a.y, o),
        9 => tx(a.x, a.y, o),
        10 => hx(a.x, a.y, o),
        _ => sx(a.x, a.y, o),
    }
}
// p, t, v, h, s, region
const ST: [[f64; 6]; 6] = [
    [3.0, 26.85, 0.00100215168, 115.331273, 0.392294792, 1.0],
    [16.0, 120.0, 0.00105225, 514.9, 1.512, 1.0],
    [0.0035, 26.85, 39.4913866, 2549.91145, 8.52238967, 2.0],
    [10.0, 550.0, 0.0356, 3500.0, 6.7549, 2.0],
    [25.5837018, 376.85, 0.002, 1863.43019, 4.05427273, 3.0],
    [0.5, 1226.85, 1.3845509, 5219.76855, 9.65408875, 5.0],
];
fn pick(r: &mut Rng, o: i32) -> Op {
    let s = ST[r.below(6) as usize];
    let f = [0, 0, 1, 2, 7, 7, 8, 9, 8, 9, 4, 5, 6, 3, 10, 11][r.below(16) as usize];
    let (x, y) = match f {
        0 => (s[0], s[1]),
        1 => (s[0], s[3]),
        2 => (s[0], s[4]),
        3 => (s[0], s[2]),
        4 => (s[1], s[2]),
        5 => (s[1], s[3]),
        6 => (s[1], s[4]),
        7 => (s[3], s[4]),
        8 => (0.1 + r.below(200) as f64 * 0.1, 0.3),
        9 => (10.0 + r.below(340) as f64, 0.7),
        10 => (2600.0, 0.95),
        _ => (6.5, 0.9),
    };
    let d = if r.below(4) == 0 { 1.0 + 1e-9 } else { 1.0 };
    Op { f, x: x * d, y, o, reg: if f < 8 && r.below(5) == 0 { s[5] as i32 } else { 0 } }
}
fn main() {
    let seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng(seed);
    let n = 2 + r.below(2) as usize;
    let base = [4, 5, 3, 0, 1, 8, 15, 16][r.below(8) as usize];
    let first = pick(&mut r, base);
    let plans: Vec<Vec<Op>> = (0..n)
        .map(|_| {
            (0..1 + r.below(2))
                .map(|_| match r.below(4) {
                    0 => first,
                    1 => Op { o: r.below(36) as i32, ..first },
                    2 => Op { x: first.x * (1.0 + 1e-7), ..first },
                    _ => {
                        let o = r.below(36) as i32;
                        pick(&mut r, o)
                    }
                })
                .collect()
        })
        .collect();
    let hs: Vec<_> = plans
        .iter()
        .cloned()
        .map(|p| std::thread::spawn(move || p.iter().map(|&o| call(o)).collect::<Vec<f64>>()))
        .collect();
    let got: Vec<Vec<f64>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for (p, g) in plans.iter().zip(&got) {
        for (o, v) in p.iter().zip(g) {
            let w = call(*o);
            let same = v.to_bits() == w.to_bits() || (v.is_nan() && w.is_nan()) || (v - w).abs() <= 1e-9 * w.abs().max(v.abs());
            if !same {
                eprintln!("SIM-MISMATCH {:?} concurrent {:e} alone {:e}", o, v, w);
                std::process::exit(3);
            }
        }
    }
    println!("SIM-OK {} calls", got.iter().map(|g| g.len()).sum::<usize>());
}
