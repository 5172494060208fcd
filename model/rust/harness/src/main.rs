//! C24: the Rust API against a recording bridge.
mod engine;

use cxx::{Call, ToValue, Value};
use engine::{Fail, Src, Sub};
use serde::{de::DeserializeOwned, Serialize};
use trajoptlib::*;

type Outcome = Result<(), Fail>;

fn number(s: &mut Src) -> f64 {
    match s.weighted(&[6, 1, 1, 1]) {
        1 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
        2 => *s.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, -1e300]),
        3 => s.choose(100) as f64,
        _ => s.coord(10.0),
    }
}
fn finite(s: &mut Src) -> f64 {
    loop {
        let v = number(s);
        if v.is_finite() {
            return v;
        }
    }
}
fn message(s: &mut Src) -> String {
    if s.choose(2) == 0 {
        return s.pick(&["", "diverged", "two\nlines", "t\u{e9}xt"]).to_string();
    }
    let parts = ["no", "way", " ", "  ", "\n", "\t", ".", "!", ":", "\"", "\0", "\u{e9}", "%s", "{}", "Error", "error: ", "what()", "0"];
    (0..s.choose(8)).map(|_| *s.pick(&parts)).collect()
}
fn index(s: &mut Src) -> usize {
    if s.choose(8) == 7 { *s.pick(&[usize::MAX, 1 << 40, 255, 65536]) } else { s.choose(9) as usize }
}

macro_rules! callbacks { ($($n:ident $k:expr),*) => { $(fn $n(t: HolonomicTrajectory, h: i64) {
    SEEN.with(|x| x.borrow_mut().push(($k, h, t.samples.len())));
})* } }
thread_local! { static SEEN: std::cell::RefCell<Vec<(i32, i64, usize)>> = const { std::cell::RefCell::new(Vec::new()) }; }
callbacks!(callback0 0, callback1 1, callback2 2);
const CALLBACKS: [fn(HolonomicTrajectory, i64); 3] = [callback0, callback1, callback2];

fn module(s: &mut Src, f: fn(&mut Src) -> f64) -> SwerveModule {
    SwerveModule { x: f(s), y: f(s), wheel_radius: f(s), wheel_max_angular_velocity: f(s), wheel_max_torque: f(s) }
}
fn drivetrain(s: &mut Src, f: fn(&mut Src) -> f64) -> SwerveDrivetrain {
    SwerveDrivetrain { mass: f(s), moi: f(s), modules: list(s, 5, |s| module(s, f)) }
}
fn pose(s: &mut Src, f: fn(&mut Src) -> f64) -> Pose2d {
    Pose2d { x: f(s), y: f(s), heading: f(s) }
}
fn list<T>(s: &mut Src, most: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    // Seldom a long one; never of long ones.
    let n = if most > 3 && s.choose(40) == 39 { s.choose(most * 30) } else { s.choose(most + 1) };
    (0..n).map(|_| f(s)).collect()
}
fn sample(s: &mut Src, f: fn(&mut Src) -> f64) -> HolonomicTrajectorySample {
    HolonomicTrajectorySample {
        timestamp: f(s),
        x: f(s),
        y: f(s),
        heading: f(s),
        velocity_x: f(s),
        velocity_y: f(s),
        angular_velocity: f(s),
        module_forces_x: list(s, 4, f),
        module_forces_y: list(s, 4, f),
    }
}
fn trajectory(s: &mut Src, f: fn(&mut Src) -> f64) -> HolonomicTrajectory {
    HolonomicTrajectory { samples: list(s, 4, |s| sample(s, f)) }
}

fn expect(what: &str, object: Option<u64>, args: Vec<Value>) -> Outcome {
    let got = cxx::calls();
    let want = vec![Call { name: Box::leak(what.to_string().into_boxed_str()), object, args }];
    if got == want {
        return Ok(());
    }
    Err(Fail::new(format!("{what} reached the bridge as {got:?} instead of {want:?}")))
}

struct Held {
    builder: SwervePathBuilder,
    id: u64,
}

/// Ids are given in order of creation.
fn create(s: &mut Src, next: &mut u64) -> Result<Held, Fail> {
    let builder = if s.choose(2) == 1 { SwervePathBuilder::default() } else { SwervePathBuilder::new() };
    expect("swerve_path_builder_new", None, vec![])?;
    *next += 1;
    Ok(Held { builder, id: *next - 1 })
}

macro_rules! forward {
    ($s:ident, $h:ident, $name:ident ( $($arg:expr),* )) => {{
        let args = vec![$($arg.to_value()),*];
        $s.note(&format!("{} {:?}; ", stringify!($name), args));
        $h.builder.$name($($arg),*);
        expect(stringify!($name), Some($h.id), args)?;
    }};
}

fn forwarding(s: &mut Src) -> Outcome {
    cxx::calls();
    cxx::unanswered();
    // The ids go on counting through the cases of a thread.
    let mut next = cxx::private::fresh() + 1;
    let mut held = vec![create(s, &mut next)?];
    let n = 1 + s.choose(12);
    let mut ok = false;
    for _ in 0..n {
        let k = s.choose(held.len() as u64) as usize;
        let (i, j) = (index(s), index(s));
        let (a, b, c) = (number(s), number(s), number(s));
        let h = &mut held[k];
        match s.choose(24) {
            0 => forward!(s, h, pose_wpt(i, a, b, c)),
            1 => forward!(s, h, translation_wpt(i, a, b, c)),
            2 => forward!(s, h, empty_wpt(i, a, b, c)),
            3 => {
                let d = drivetrain(s, number);
                forward!(s, h, set_drivetrain(&d));
            }
            4 => forward!(s, h, set_bumpers(a, b)),
            5 => {
                let c = list(s, 6, index);
                let copy = c.clone();
                s.note(&format!("set_control_interval_counts {copy:?}; "));
                h.builder.set_control_interval_counts(c);
                expect("set_control_interval_counts", Some(h.id), vec![copy.to_value()])?;
            }
            6 => {
                let p = list(s, 4, |s| pose(s, number));
                forward!(s, h, sgmt_initial_guess_points(i, &p));
            }
            7 => forward!(s, h, wpt_linear_velocity_direction(i, a)),
            8 => forward!(s, h, wpt_linear_velocity_max_magnitude(i, a)),
            9 => forward!(s, h, wpt_angular_velocity_max_magnitude(i, a)),
            10 => forward!(s, h, wpt_linear_acceleration_max_magnitude(i, a)),
            11 => forward!(s, h, wpt_point_at(i, a, b, c)),
            12 => forward!(s, h, sgmt_linear_velocity_direction(i, j, a)),
            13 => forward!(s, h, sgmt_linear_velocity_max_magnitude(i, j, a)),
            14 => forward!(s, h, sgmt_angular_velocity_max_magnitude(i, j, a)),
            15 => forward!(s, h, sgmt_linear_acceleration_max_magnitude(i, j, a)),
            16 => forward!(s, h, sgmt_point_at(i, j, a, b, c)),
            17 => forward!(s, h, sgmt_circle_obstacle(i, j, a, b, c)),
            18 => {
                let (x, y) = (list(s, 5, number), list(s, 5, number));
                s.note(&format!("sgmt_polygon_obstacle {i} {j} {x:?} {y:?} {a}; "));
                let args = vec![i.to_value(), j.to_value(), x.to_value(), y.to_value(), a.to_value()];
                h.builder.sgmt_polygon_obstacle(i, j, x, y, a);
                expect("sgmt_polygon_obstacle", Some(h.id), args)?;
            }
            19 => {
                let f = *s.pick(&CALLBACKS);
                s.note("add_progress_callback; ");
                h.builder.add_progress_callback(f);
                expect("add_progress_callback", Some(h.id), vec![f.to_value()])?;
            }
            20 => {
                s.note("cancel_all; ");
                cancel_all();
                expect("cancel_all", None, vec![])?;
            }
            21 => {
                if held.len() < 3 {
                    s.note("another builder; ");
                    let x = create(s, &mut next)?;
                    held.push(x);
                    s.label("several builders");
                }
            }
            _ => {
                let diagnostics = s.choose(2) == 1;
                let handle = match s.choose(3) {
                    0 => (s.choose(1 << 31) as i64).wrapping_shl(s.choose(33) as u32),
                    1 => -(s.choose(1 << 31) as i64).wrapping_shl(s.choose(33) as u32),
                    _ => *s.pick(&[0i64, 1, -1, 99, i64::MAX, i64::MIN]),
                };
                let t = trajectory(s, number);
                let want = t.to_value();
                let text = message(s);
                let fails = s.choose(3) == 2;
                s.note(&format!("generate {diagnostics} {handle} answered by {}; ", if fails { "an error" } else { "a trajectory" }));
                cxx::answer(if fails { Err(text.clone()) } else { Ok(Box::new(t)) });
                let got = h.builder.generate(diagnostics, handle);
                expect("generate", Some(h.id), vec![diagnostics.to_value(), handle.to_value()])?;
                match got {
                    Ok(t) => {
                        if fails || t.to_value() != want {
                            return Err(Fail::new(format!("generate returned {:?}", t.to_value())));
                        }
                        let c = t.clone();
                        if c.to_value() != want {
                            return Err(Fail::new("a clone differs".into()));
                        }
                    }
                    Err(e) => {
                        if !fails || e != text {
                            return Err(Fail::new(format!("generate returned the error {e:?} instead of {}", if fails { &text } else { "a trajectory" })));
                        }
                    }
                }
                s.label(if fails { "error" } else { "trajectory" });
                ok = true;
            }
        }
        if cxx::unanswered() != 0 {
            return Err(Fail::new("the bridge was not called".into()));
        }
    }
    drop(held);
    if !cxx::calls().is_empty() {
        return Err(Fail::new("calls on dropping".into()));
    }
    if ok && n > 3 {
        s.nontrivial();
    }
    Ok(())
}

fn as_json(v: &Value) -> serde_json::Value {
    match v {
        Value::Bits(b) => serde_json::json!(f64::from_bits(*b)),
        Value::Int(i) => serde_json::json!(*i as i64),
        Value::Bool(b) => serde_json::json!(b),
        Value::Text(t) => serde_json::json!(t),
        Value::List(l) => serde_json::Value::Array(l.iter().map(as_json).collect()),
        Value::Struct(_, f) => serde_json::Value::Object(f.iter().map(|(n, v)| (n.to_string(), as_json(v))).collect()),
        Value::Fn(_) => serde_json::Value::Null,
    }
}
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Bits(x), Value::Bits(y)) => {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            x == y || (x - y).abs() <= 1e-15 * x.abs().max(y.abs())
        }
        (Value::List(x), Value::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (Value::Struct(n, x), Value::Struct(m, y)) => {
            n == m && x.len() == y.len() && x.iter().zip(y).all(|((p, q), (r, t))| p == r && close(q, t))
        }
        _ => a == b,
    }
}

/// Through a JSON value (exact) and JSON text (to the last digit or so).
fn round_trip<T: Serialize + DeserializeOwned + ToValue>(s: &mut Src, x: T) -> Outcome {
    let v = x.to_value();
    s.note(&format!("{v:?}"));
    let json = serde_json::to_value(&x).map_err(|e| Fail::new(format!("cannot be serialised: {e}")))?;
    if json != as_json(&v) {
        return Err(Fail::new(format!("serialised as {json} instead of {}", as_json(&v))));
    }
    let back: T = serde_json::from_value(json.clone()).map_err(|e| Fail::new(format!("{json} cannot be read back: {e}")))?;
    if back.to_value() != v {
        return Err(Fail::new(format!("read back as {:?} instead of {v:?}", back.to_value())));
    }
    let text = serde_json::to_string(&x).map_err(|e| Fail::new(e.to_string()))?;
    let back: T = serde_json::from_str(&text).map_err(|e| Fail::new(format!("{text} cannot be read back: {e}")))?;
    if !close(&back.to_value(), &v) {
        return Err(Fail::new(format!("read back from {text} as {:?}", back.to_value())));
    }
    // Fields in another order, and one missing.
    if let serde_json::Value::Object(m) = &json {
        let names: Vec<_> = m.keys().cloned().collect();
        let mixed = format!("{{{}}}", names.iter().rev().map(|n| format!("{:?}:{}", n, m[n])).collect::<Vec<_>>().join(","));
        let back: T = serde_json::from_str(&mixed).map_err(|e| Fail::new(format!("{mixed} cannot be read: {e}")))?;
        if !close(&back.to_value(), &v) {
            return Err(Fail::new(format!("the order of fields matters: {mixed}")));
        }
        let mut less = m.clone();
        let gone = names[s.choose(names.len() as u64) as usize].clone();
        less.remove(&gone);
        if serde_json::from_value::<T>(serde_json::Value::Object(less)).is_ok() {
            return Err(Fail::new(format!("accepted without {gone}")));
        }
    }
    Ok(())
}

/// Data by the field names users write.
fn named(s: &mut Src) -> Outcome {
    let f: Vec<f64> = (0..7).map(|_| finite(s)).collect();
    let (fx, fy) = (list(s, 4, finite), list(s, 4, finite));
    let bad = |what: &str| Err(Fail::new(format!("{what} read from JSON has its fields mixed up")));
    let read = |j: serde_json::Value| j;
    s.note(&format!("{f:?} {fx:?} {fy:?}"));
    let p: Pose2d = serde_json::from_value(read(serde_json::json!({"x": f[0], "y": f[1], "heading": f[2]})))
        .map_err(|e| Fail::new(format!("pose: {e}")))?;
    if (p.x, p.y, p.heading) != (f[0], f[1], f[2]) {
        return bad("a pose");
    }
    let m = serde_json::json!({"x": f[0], "y": f[1], "wheel_radius": f[2], "wheel_max_angular_velocity": f[3], "wheel_max_torque": f[4]});
    let d: SwerveDrivetrain = serde_json::from_value(serde_json::json!({"mass": f[5], "moi": f[6], "modules": [m]}))
        .map_err(|e| Fail::new(format!("drivetrain: {e}")))?;
    let q = &d.modules[0];
    if d.modules.len() != 1 || (d.mass, d.moi) != (f[5], f[6]) {
        return bad("a drivetrain");
    }
    if (q.x, q.y, q.wheel_radius, q.wheel_max_angular_velocity, q.wheel_max_torque) != (f[0], f[1], f[2], f[3], f[4]) {
        return bad("a module");
    }
    let t: HolonomicTrajectory = serde_json::from_value(serde_json::json!({"samples": [{
        "timestamp": f[0], "x": f[1], "y": f[2], "heading": f[3], "velocity_x": f[4], "velocity_y": f[5],
        "angular_velocity": f[6], "module_forces_x": fx, "module_forces_y": fy}]}))
    .map_err(|e| Fail::new(format!("trajectory: {e}")))?;
    let q = &t.samples[0];
    if t.samples.len() != 1
        || [q.timestamp, q.x, q.y, q.heading, q.velocity_x, q.velocity_y, q.angular_velocity][..] != f[..]
        || q.module_forces_x != fx
        || q.module_forces_y != fy
    {
        return bad("a sample");
    }
    if !fx.is_empty() {
        s.nontrivial();
    }
    Ok(())
}

fn serialised(s: &mut Src) -> Outcome {
    match s.choose(5) {
        0 => {
            let x = pose(s, finite);
            round_trip(s, x)
        }
        1 => {
            let x = module(s, finite);
            round_trip(s, x)
        }
        2 => {
            let x = drivetrain(s, finite);
            if x.modules.len() > 1 {
                s.nontrivial();
            }
            round_trip(s, x)
        }
        3 => {
            let x = sample(s, finite);
            if !x.module_forces_x.is_empty() {
                s.nontrivial();
            }
            round_trip(s, x)
        }
        _ => {
            let x = trajectory(s, finite);
            if x.samples.len() > 1 {
                s.nontrivial();
            }
            round_trip(s, x)
        }
    }
}

fn main() {
    let subs = [
        Sub {
            property: "C24",
            name: "forwarding",
            run: forwarding,
            quick: 400_000,
            thorough: 12_000_000,
            rule: "1..12 random calls of the Rust API with any numbers (NaN, infinities, huge indices) on 1..3 builders, against a recording bridge with random answers; each call reaches the bridge once, on its builder, with its arguments bit for bit in order, and generate returns the answer; non-trivial: more than three calls, a generation among them",
        },
        Sub {
            property: "C24",
            name: "round-trip",
            run: serialised,
            quick: 150_000,
            thorough: 5_000_000,
            rule: "random poses, modules, drivetrains, samples and trajectories of finite numbers through JSON values and text, fields in any order, and with one field missing; non-trivial: several modules, forces or samples",
        },
        Sub {
            property: "C24",
            name: "field-names",
            run: named,
            quick: 100_000,
            thorough: 3_000_000,
            rule: "JSON written by field name and read back field by field; non-trivial: module forces",
        },
    ];
    std::process::exit(engine::main(&subs));
}
