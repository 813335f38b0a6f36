//! A01: the schedule of the fast explicit diffusion.
use super::img::*;
const TAU: &str = "akaze::fed_tau::fed_tau_by_process_time";
const INNER: &str = "akaze::fed_tau::fed_tau_internal";
const ALLOC: &str = "akaze::Akaze::allocate_evolutions akaze::evolution::EvolutionStep::new";
fn spec(n: usize, scale: R, tau_max: R, k: usize) -> R {
    let c = (lit(std::f64::consts::PI) * lit((2 * k + 1) as f64) / lit((4 * n + 2) as f64)).cos();
    scale * tau_max / (lit(2.0) * c * c)
}
#[cfg(feature = "has_fed_tau_internal")]
fn steps_of_cycle() {
    let n = pick("n - 1", 40) + 1;
    let (scale, tau_max) = (pos_in("scale", 0.1, 1.0), pos_in("tau_max", 0.1, 1.0));
    let want: Vec<R> = (0..n).map(|k| spec(n, scale, tau_max, k)).collect();
    let v = akaze::fed_tau::fed_tau_internal(n, scale, tau_max, false);
    ensure_eqs("steps in order", &v, &want);
    let v = akaze::fed_tau::fed_tau_internal(n, scale, tau_max, true);
    ensure("reordered: as many", v.len() == n);
    let mut left = want;
    for x in v {
        match left.iter().position(|y| same(&[x], &[*y])) {
            Some(i) => {
                left.remove(i);
            }
            None => ensure("reordered: the same steps", false),
        }
    }
    ensure("reordered: every step once", left.is_empty());
}
fn check_steps(v: &[f64], t: f64, tau_max: f64) {
    // the least n with tau_max n (n + 1) / 3 >= t
    let reach = |n: usize| tau_max * (n * (n + 1)) as f64 / 3.0;
    let n = v.len();
    ensure("enough steps", reach(n) >= t * (1.0 - 1e-6));
    ensure("no more steps than needed", n > 0 && reach(n - 1) <= t * (1.0 + 1e-6));
    ensure("the steps add up to the time", (v.iter().sum::<f64>() - t).abs() <= 1e-9 * t);
    let scale = t / reach(n);
    let mut want: Vec<f64> = (0..n).map(|k| scale * tau_max / (2.0 * (std::f64::consts::PI * (2 * k + 1) as f64 / (4 * n + 2) as f64).cos().powi(2))).collect();
    let mut got = v.to_vec();
    want.sort_by(|a, b| a.total_cmp(b));
    got.sort_by(|a, b| a.total_cmp(b));
    ensure("the steps of the cycle, each once", got.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-7 * b));
}
#[cfg(not(feature = "sym"))]
fn process_time() {
    let (t, tau_max) = (pos_in("T", 0.01, 60.0), if flag("stable") { 0.25 } else { pos_in("tau_max", 0.05, 0.5) });
    let t = if flag("short") { t * 0.01 } else { t };
    let m = 1 + pick("M - 1", 4) as i32;
    // a time that a number of steps reaches exactly
    let whole = if flag("whole") { 1 + pick("n - 1", 30) } else { 0 };
    let t = if whole > 0 { m as f64 * tau_max * (whole * (whole + 1)) as f64 / 3.0 } else { t };
    let v = akaze::fed_tau::fed_tau_by_process_time(t, m, tau_max, flag("reordering"));
    check_steps(&v, t / m as f64, tau_max);
    ensure("exactly the steps that reach the time", whole == 0 || v.len() == whole);
}
#[cfg(not(feature = "sym"))]
fn evolutions() {
    let a = Akaze { num_sublevels: 1 + pick("sublevels", 20) as u32, max_octave_evolution: pick("octaves", 8) as u32, base_scale_offset: pos_in("base", 0.8, 3.0), ..Akaze::default() };
    let size = |n: &str| if flag("edge") { (40u32 << pick(n, 5)) + pick("near", 5) as u32 - 2 } else { 1 + pick(n, 1500) as u32 };
    let (w, h) = (size("w"), size("h"));
    let got = a.allocate_evolutions(w, h);
    let mut want = vec![];
    for o in 0..a.max_octave_evolution {
        let small = (w >> o).min(h >> o);
        if small >= 40 {
            (0..if small < 80 { 1 } else { a.num_sublevels }).for_each(|s| want.push((o, s)));
        }
    }
    ensure("octaves and sublevels", got.iter().map(|e| (e.octave, e.sublevel)).collect::<Vec<_>>() == want);
    for (i, e) in got.iter().enumerate() {
        let s = a.base_scale_offset * 2f64.powf(e.octave as f64 + e.sublevel as f64 / a.num_sublevels as f64);
        ensure("scale of the level", (e.esigma - s).abs() <= 1e-9 * s);
        ensure("time of the level is half the squared scale", (e.etime - s * s / 2.0).abs() <= 1e-9 * s * s);
        ensure("integer scale", e.sigma_size == s.round() as u32);
        if i == 0 {
            ensure("no diffusion before the first level", e.fed_tau_steps.is_empty());
        } else {
            check_steps(&e.fed_tau_steps, e.etime - got[i - 1].etime, 0.25);
        }
    }
}
#[cfg(feature = "sym")]
fn process_time() {}
#[cfg(feature = "sym")]
fn evolutions() {}
pub fn table() -> Vec<Harness> {
    vec![
        #[cfg(feature = "has_fed_tau_internal")]
        hb("A01", "steps_of_cycle", INNER, "bounded: cycles of 1..=40 steps, any scale and limit", steps_of_cycle),
        hf("A01", "process_time", TAU, process_time),
        hf("A01", "evolutions", ALLOC, evolutions),
    ]
}
