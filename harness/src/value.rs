//! Notes, events, durations, texts and the like as values: what their operations make of them.
use crate::enc;
use crate::gen;
use crate::util::*;
use klavier_core::bar::Bar;
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::have_start_tick::{HaveBaseStartTick, HaveStartTick};
use klavier_core::location::Location;
use klavier_core::models::{FromClipboardTextErr, Models};
use klavier_core::note::{Note, NoteBuilder};
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::{Pitch, PitchError};
use klavier_core::project::ModelChangeMetadata;
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::text_input::{TextInput, Validated};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::tuple;
use klavier_core::undo::{Undo, UndoStore};
use klavier_core::velocity::Velocity;
use serde_json::{json, Value};
use std::rc::Rc;
use std::str::FromStr;

// ---- encoding ---------------------------------------------------------------

const SOLFAS: [Solfa; 7] = [Solfa::C, Solfa::D, Solfa::E, Solfa::F, Solfa::G, Solfa::A, Solfa::B];
const OCTAVES: [Octave; 11] = [
    Octave::OctM2, Octave::OctM1, Octave::Oct0, Octave::Oct1, Octave::Oct2, Octave::Oct3,
    Octave::Oct4, Octave::Oct5, Octave::Oct6, Octave::Oct7, Octave::Oct8,
];
const NUMERATORS: [Numerator; 8] = [
    Numerator::Whole, Numerator::Half, Numerator::Quarter, Numerator::N8th,
    Numerator::N16th, Numerator::N32nd, Numerator::N64th, Numerator::N128th,
];

fn solfa_no(s: Solfa) -> i64 {
    SOLFAS.iter().position(|x| *x == s).unwrap() as i64
}
fn octave_no(o: Octave) -> i64 {
    OCTAVES.iter().position(|x| *x == o).unwrap() as i64 - 2
}
fn sf_of(s: &str) -> SharpFlat {
    *gen::SHARP_FLATS.iter().find(|x| enc::sf(**x) == s).unwrap()
}
fn num_no(n: Numerator) -> i64 {
    NUMERATORS.iter().position(|x| *x == n).unwrap() as i64
}

/// v, n: key number and staff position as the code has them
fn pitch(p: Pitch) -> Value {
    json!({"s": solfa_no(p.solfa()), "o": octave_no(p.octave()), "a": enc::sf(p.sharp_flat()), "v": p.value(), "n": p.score_offset()})
}
fn to_pitch(v: &Value) -> Pitch {
    Pitch::new(
        SOLFAS[v["s"].as_i64().unwrap() as usize],
        OCTAVES[(v["o"].as_i64().unwrap() + 2) as usize],
        sf_of(v["a"].as_str().unwrap()),
    )
}
fn duration(d: Duration) -> Value {
    json!([num_no(d.numerator), d.denominator.value(), d.dots.value()])
}
fn to_duration(v: &Value) -> Duration {
    Duration::new(
        NUMERATORS[v[0].as_u64().unwrap() as usize],
        Denominator::from_value(v[1].as_u64().unwrap() as u8).unwrap(),
        Dots::from_value(v[2].as_u64().unwrap() as u8).unwrap(),
    )
}
fn milli(p: PercentU16) -> i64 {
    (p.to_f32() as f64 * 1000.0).round() as i64
}

/// x: what the code derives from it: start, length, velocity, product of the length trims
/// the same number whichever way it is asked for
fn agreed(v: &[u32]) -> Value {
    if v.iter().all(|x| *x == v[0]) { json!(v[0]) } else { json!(-1) }
}
fn note(n: &Note) -> Value {
    let rc = Rc::new(n.clone());
    json!({
        "t": agreed(&[n.base_start_tick, HaveBaseStartTick::base_start_tick(n), HaveBaseStartTick::base_start_tick(&rc)]), "p": pitch(n.pitch), "d": duration(n.duration), "ti": [n.tie as u8, n.tied as u8],
        "v": n.base_velocity.as_u8(), "st": enc::trim(&n.start_tick_trimmer), "rt": enc::rate(&n.duration_trimmer),
        "vt": enc::trim(&n.velocity_trimmer), "c": n.channel.as_u8(),
        "x": [agreed(&[n.start_tick(), HaveStartTick::start_tick(n), HaveStartTick::start_tick(&rc)]), n.tick_len(), n.velocity().as_u8(), milli(n.duration_trimmer.sum())],
    })
}
fn arr<T: Copy + Default, const N: usize>(v: &Value, f: impl Fn(i64) -> T) -> [T; N] {
    let mut a = [T::default(); N];
    for (i, x) in a.iter_mut().enumerate() {
        *x = f(v[i].as_i64().unwrap());
    }
    a
}
fn rates(v: &[i64; 4]) -> RateTrimmer {
    RateTrimmer::from_array(v.map(|x| PercentU16::from_value(x as u16)))
}
fn to_note(v: &Value) -> Note {
    Note {
        base_start_tick: v["t"].as_u64().unwrap() as u32,
        pitch: to_pitch(&v["p"]),
        duration: to_duration(&v["d"]),
        tie: v["ti"][0] == 1,
        tied: v["ti"][1] == 1,
        base_velocity: Velocity::new(v["v"].as_u64().unwrap() as u8),
        start_tick_trimmer: Trimmer::from_array(arr::<i16, 4>(&v["st"], |x| x as i16)),
        duration_trimmer: rates(&arr::<i64, 4>(&v["rt"], |x| x)),
        velocity_trimmer: Trimmer::from_array(arr::<i16, 4>(&v["vt"], |x| x as i16)),
        channel: Channel::new(v["c"].as_u64().unwrap() as u8),
    }
}

/// What is put in, built without the code under test.
fn note_in(r: &mut Rng, far: bool) -> Value {
    let p = pitch_in(r);
    let full = |r: &mut Rng| -> i64 {
        match r.below(8) {
            0 => 32767,
            1 => -32768,
            2 => r.range(-32768, 32767),
            3 | 4 => r.range(-130, 130),
            _ => 0,
        }
    };
    let rate = |r: &mut Rng| -> i64 {
        match r.below(8) {
            0 => 0,
            1 => 2000,
            2 => r.range(0, 2000),
            3 => r.range(900, 1100),
            _ => 1000,
        }
    };
    let t = if far && r.chance(20) { r.range(0, 2_000_000_000) } else { r.range(0, 200_000) >> r.below(16) };
    json!({
        "t": t,
        "p": p,
        "d": [r.below(8), if r.chance(60) { 2 } else { r.range(2, 255) }, if r.chance(50) { 0 } else { r.range(0, 7) }],
        "ti": [r.below(2), r.below(2)],
        "v": r.below(128),
        "st": [full(r), full(r), full(r), full(r)],
        "rt": [rate(r), rate(r), rate(r), rate(r)],
        "vt": [full(r), full(r), full(r), full(r)],
        "c": r.below(16),
    })
}
fn pitch_in(r: &mut Rng) -> Value {
    loop {
        let s = r.usize(7);
        let o = r.usize(11);
        let a = enc::sf(*r.pick(&gen::SHARP_FLATS));
        let v = [0, 2, 4, 5, 7, 9, 11][s] + 12 * o as i64 + match a { "#" => 1, "##" => 2, "b" => -1, "bb" => -2, _ => 0 };
        if (0..=127).contains(&v) {
            return json!({"s": s, "o": o as i64 - 2, "a": a});
        }
    }
}

/// The lines of a script file that belong to this part.
pub fn lines_of(path: &str, part: usize, parts: usize) -> Vec<Value> {
    std::fs::read_to_string(path)
        .expect("scripts")
        .lines()
        .enumerate()
        .filter(|(i, l)| i % parts == part && !l.is_empty())
        .map(|(_, l)| serde_json::from_str(l).expect("script"))
        .collect()
}

// ---- notes ------------------------------------------------------------------

fn pitch_err(e: PitchError) -> &'static str {
    match e {
        PitchError::TooLow(..) => "low",
        PitchError::TooHigh(..) => "high",
        PitchError::InvalidScoreOffset(so) => if so < 0 { "low" } else { "high" },
    }
}

fn note_op(n: &Note, op: &Value) -> Result<Note, &'static str> {
    let i = |k: usize| op[k].as_i64().unwrap() as i32;
    match op[0].as_str().unwrap() {
        "up" => n.up_score_offset().map_err(pitch_err),
        "down" => n.down_score_offset().map_err(pitch_err),
        "#" => n.toggle_sharp().map_err(pitch_err),
        "b" => n.toggle_flat().map_err(pitch_err),
        "n" => n.toggle_natural().map_err(pitch_err),
        "drag" => Ok(n.drag(i(1), i(2))),
        "tie" => Ok(n.toggle_tie()),
        "dots" => n.add_dots(i(1)).map_err(|_| "err"),
        "value" => Ok(n.with_duration_numerator(NUMERATORS[i(1) as usize])),
        "dur" => Ok(n.with_duration(to_duration(&op[1]))),
        "new" => Ok(Note::new(n.base_start_tick, n.pitch, n.duration, n.tie, n.tied, n.base_velocity,
            n.start_tick_trimmer, n.duration_trimmer, n.velocity_trimmer, n.channel)),
        "build" => NoteBuilder::default().base_start_tick(n.base_start_tick).pitch(n.pitch).duration(n.duration).tie(n.tie).tied(n.tied)
            .base_velocity(n.base_velocity).start_tick_trimmer(n.start_tick_trimmer).duration_trimmer(n.duration_trimmer)
            .velocity_trimmer(n.velocity_trimmer).channel(n.channel).build().map_err(|_| "err"),
        "move" => n.with_tick_added(i(1), false).map_err(|_| "err"),
        "trim" => n.with_tick_added(i(1), true).map_err(|_| "err"),
        o => panic!("unknown note operation {}", o),
    }
}

fn note_ops(first: &Value, ops: &[Value]) {
    rec("note", json!({"n": first, "ops": ops}), || {
        let mut n = to_note(first);
        let mut out = vec![json!(["ok", note(&n)])];
        for op in ops {
            match note_op(&n, op) {
                Ok(m) => {
                    out.push(json!(["ok", note(&m)]));
                    n = m;
                }
                Err(e) => out.push(json!([e, {}])),
            }
        }
        json!(out)
    });
}

pub fn note_scripts(path: &str, part: usize, parts: usize) {
    for s in lines_of(path, part, parts) {
        note_ops(&s[0], s[1].as_array().unwrap());
    }
}

/// focus: pitch, shape or time
pub fn notes(seed: u64, n: u64, focus: &str) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let first = note_in(&mut r, true);
        let mut cur = to_note(&first);
        let mut ops = vec![];
        for _ in 0..r.range(1, 8) {
            let far = |r: &mut Rng| -> i64 {
                match r.below(6) {
                    0 => r.range(-5, 5),
                    1 => r.range(-140_000, 140_000),
                    2 => -(cur.base_start_tick as i64) + r.range(-2, 2),
                    3 => r.range(-70_000, 70_000),
                    4 => r.range(-33_000, 33_000),
                    _ => r.range(-500, 500),
                }
            };
            let op = match (focus, r.below(5)) {
                ("pitch", 0) => json!(["up"]),
                ("pitch", 1) => json!(["down"]),
                ("pitch", 2) => json!([*r.pick(&["#", "b", "n"])]),
                ("pitch", 3) => json!(["drag", r.range(-(cur.base_start_tick.min(400) as i64), 400), r.range(-80, 80)]),
                ("pitch", _) => json!(["drag", 0, r.range(-9, 9)]),
                ("shape", 0..=1) => json!(["tie"]),
                ("shape", 2) => json!(["dots", *r.pick(&[-1i64, 1, 1, 2, -2, 7, -7, 8, -8, 255, 256, -256, i32::MAX as i64, i32::MIN as i64])]),
                ("shape", 3) => json!(["value", r.below(8)]),
                ("shape", _) => json!(["dur", [r.below(8), r.range(2, 255), r.below(8)]]),
                (_, 2) if r.chance(30) => json!([*r.pick(&["new", "build"])]),
                (_, 0) => json!(["move", far(&mut r)]),
                (_, 1) => { let d = far(&mut r); json!(["drag", d.max(-(cur.base_start_tick as i64)), 0]) }
                (_, _) => json!(["trim", far(&mut r)]),
            };
            if op[0] == "drag" && {
                // a drag has no way to refuse
                let so = cur.pitch.score_offset() as i64 + op[2].as_i64().unwrap();
                !(0..77).contains(&so) || {
                    let v = [0, 2, 4, 5, 7, 9, 11][(so % 7) as usize] + 12 * (so / 7) + match enc::sf(cur.pitch.sharp_flat()) { "#" => 1, "##" => 2, "b" => -1, "bb" => -2, _ => 0 };
                    !(0..=127).contains(&v)
                }
            } {
                continue;
            }
            let c = cur.clone();
            let o = op.clone();
            if let Ok(Ok(m)) = guarded(json!({"op": "note", "i": {"n": first, "ops": ops}, "p": ""}), move || note_op(&c, &o)) {
                cur = m;
            }
            ops.push(op);
        }
        note_ops(&first, &ops);
    }
}

/// Every note name, octave and accidental, with all that can be done to it.
pub fn pitches() {
    let res = |r: Result<Pitch, PitchError>| match r {
        Ok(p) => json!(["ok", pitch(p)]),
        Err(e) => json!([pitch_err(e), {}]),
    };
    for s in SOLFAS {
        for o in OCTAVES {
            for a in gen::SHARP_FLATS {
                let i = json!({"s": solfa_no(s), "o": octave_no(o), "a": enc::sf(a)});
                rec("pitch", i, || {
                    let first = Pitch::value_of(s, o, a);
                    let value = Pitch::to_value(s, o, a);
                    match first {
                        Err(e) => json!({"r": [pitch_err(e), {}], "value": value}),
                        Ok(p) => json!({
                            "r": res(Ok(p)), "value": value,
                            "up": res(p.up()), "down": res(p.down()),
                            "sharp": res(p.toggle_sharp()), "flat": res(p.toggle_flat()), "natural": res(p.toggle_natural()),
                            "keys": Key::ALL.iter().map(|k| json!([k.offset(), res(p.apply_key(*k))])).collect::<Vec<_>>(),
                            "drags": (-80..=80).chain([1000, -1000, i32::MAX, i32::MIN + 1]).map(|d| json!([d, res(p.with_score_offset_delta(d))])).collect::<Vec<_>>(),
                        }),
                    }
                });
            }
        }
    }
    for so in (-3..80).chain([i32::MIN, i32::MAX]) {
        rec("from_so", json!(so), || pitch(Pitch::from_score_offset(so)));
        if (0..77).contains(&so) {
            rec("so_names", json!(so), || {
                let (s, o) = Pitch::score_offset_to_solfa_octave(so);
                json!([solfa_no(s), octave_no(o)])
            });
        }
    }
    for v in (-20..=20).chain([i32::MIN, i32::MIN + 1, i32::MAX - 2]) {
        let res = |r: Result<Octave, _>| match r {
            Ok(o) => json!(["ok", octave_no(o)]),
            Err(_) => json!(["err", 0]),
        };
        rec("octave", json!(v), || {
            let o = Octave::value_of(v);
            let num = o.as_ref().map(|o| vec![o.value() as i64, o.offset() as i64]).unwrap_or_default();
            json!({"value": res(o), "offset": res(Octave::from_score_offset(v)), "num": num})
        });
        rec("solfa", json!(v), || {
            let s = Solfa::from_score_offset(v);
            json!([solfa_no(s), s.score_offset(), s.pitch_offset(), s.to_string()])
        });
    }
    for k in Key::ALL {
        rec("key", json!(k.offset()), || {
            let mut v: Vec<i64> = Key::SOLFAS.get(&k).map(|s| s.iter().map(|x| solfa_no(*x)).collect()).unwrap_or_default();
            v.sort();
            json!({"s": v, "flat": k.is_flat(), "sharp": k.is_sharp()})
        });
    }
}

/// Trims over their full ranges, made in every way.
pub fn trims(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let mut v = [0i16; 4];
        for x in v.iter_mut() {
            *x = match r.below(5) {
                0 => i16::MAX - r.below(2) as i16,
                1 => i16::MIN + r.below(2) as i16,
                2 => 0,
                _ => r.range(-32768, 32767) as i16,
            };
        }
        let d = match r.below(4) {
            0 => r.range(-3, 3),
            1 => r.range(-40_000, 40_000),
            2 => r.range(-140_000, 140_000),
            _ => r.range(-1_000_000_000, 1_000_000_000),
        };
        rec("trim", json!({"t": v, "d": d}), || {
            let t = Trimmer::from_array(v);
            let all = [
                t,
                Trimmer::new(v[0], v[1], v[2], v[3]),
                Trimmer::from_vec(&v.to_vec()),
                Trimmer::ZERO.updated(|x| *x = v),
                serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap(),
            ];
            let a = t.added(d as i32);
            json!({
                "same": all.iter().all(|x| *x == t && enc::trim(x) == enc::trim(&t) && x.to_vec() == v.to_vec() && x.to_array() == v && x.values() == v),
                "sums": all.iter().map(|x| x.sum()).collect::<Vec<_>>(),
                "t": enc::trim(&t), "a": enc::trim(&a), "asum": a.sum(),
            })
        });
        let mut q = [0i64; 4];
        for x in q.iter_mut() {
            *x = match r.below(6) {
                0 => 2000,
                1 => 0,
                2 => r.range(0, 2000),
                3 => r.range(990, 1010),
                _ => 1000,
            };
        }
        let len = r.range(0, 1920);
        rec("rate", json!({"r": q, "len": len}), || {
            let t = rates(&q);
            let f = q.map(|x| x as f32 / 1000.0);
            let all = [
                t,
                RateTrimmer::new(f[0], f[1], f[2], f[3]),
                RateTrimmer::from_vec(&t.to_vec()),
                serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap(),
            ];
            use klavier_core::can_apply::CanApply;
            json!({
                "same": all.iter().all(|x| *x == t && enc::rate(x) == enc::rate(&t)),
                "r": enc::rate(&t),
                "sums": all.iter().map(|x| milli(x.sum())).collect::<Vec<_>>(),
                "len": t.apply(len as u32),
            })
        });
        // trims are the same if their values are, whatever they come to
        let mut w = v;
        let mut u = q;
        match r.below(4) {
            0 => {}
            1 => { w.rotate_left(1); u.rotate_left(1); }
            2 => { w.reverse(); u.swap(1, 2); }
            _ => { let k = r.usize(4); w[k] = w[k].wrapping_add(1); u[k] = (u[k] + 1) % 2001; }
        }
        rec("trimeq", json!([v, w]), || {
            let (a, b) = (Trimmer::from_array(v), Trimmer::from_array(w));
            let note = |t: Trimmer| Note { start_tick_trimmer: t, ..Note::default() };
            let hash = |t: &Trimmer| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() };
            json!([a == b, b == a, note(a) == note(b), a != b || hash(&a) == hash(&b), (0..4).map(|k| a.value(k)).collect::<Vec<_>>() == v.map(|x| x as i32).to_vec()])
        });
        rec("trimeq", json!([q, u]), || {
            let (a, b) = (rates(&q), rates(&u));
            let note = |t: RateTrimmer| Note { duration_trimmer: t, ..Note::default() };
            json!([a == b, b == a, note(a) == note(b), true, (0..4).all(|k| a.value(k) == a.to_vec()[k] && a.values()[k] == a.to_vec()[k])])
        });
        // ticks beyond 2^31
        let mut n = to_note(&note_in(&mut r, false));
        n.base_start_tick = r.range(0, u32::MAX as i64 - 200_000) as u32;
        rec("far", json!({"t": big(n.base_start_tick as u128), "st": enc::trim(&n.start_tick_trimmer)}), || big(n.start_tick() as u128));
    }
}

// ---- tuplets ----------------------------------------------------------------

fn tuplet(notes: Vec<Note>) { tuplet_at(notes, 0) }

/// The same notes, all of them `later`, which is the same tuplet.
fn tuplet_at(notes: Vec<Note>, later: u32) {
    let seen = |n: &Note| {
        let mut v = note(n);
        if later > 0 {
            // clear of what the specification cannot count to
            v["t"] = json!((n.base_start_tick as i64 - later as i64).clamp(-1_000_000_000, 2_000_000_000));
            v["x"] = json!([]);
        }
        v
    };
    let input = json!(notes.iter().map(note).collect::<Vec<_>>());
    rec("tuple", input, || {
        let once = tuple::tuplize(notes.iter().map(|n| Rc::new(Note { base_start_tick: n.base_start_tick + later, ..n.clone() })).collect());
        let again = tuple::tuplize(once.clone());
        json!({
            "n": once.iter().map(|n| seen(n)).collect::<Vec<_>>(),
            "again": again.iter().map(|n| seen(n)).collect::<Vec<_>>(),
            "later": later.to_string(),
        })
    });
}

pub fn tuple_scripts(path: &str, part: usize, parts: usize) {
    for s in lines_of(path, part, parts) {
        let notes = s[1].as_array().unwrap().iter().enumerate().map(|(k, x)| {
            let mut n = Note { base_start_tick: x[0].as_u64().unwrap() as u32, duration: to_duration(&x[1]), ..Note::default() };
            n.channel = Channel::new(k as u8);
            n
        });
        tuplet(notes.collect());
    }
}

pub fn tuples(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let mut notes = vec![];
        let most = if r.chance(10) { 40 } else { 8 };
        let many = r.range(1, most);
        let places = r.range(1, 8);
        let far = if r.chance(10) { 2_000_000_000 } else { 5000 };
        let base = r.range(0, far);
        let style = r.below(4);
        let doubles = if r.chance(30) { 25 } else { 0 };
        for _ in 0..many {
            if !notes.is_empty() && r.chance(doubles) { let n: &Note = r.pick(&notes); let n = n.clone(); notes.push(n); continue; }   // notes may be equal
            let mut v = note_in(&mut r, false);
            v["t"] = json!(base + r.range(0, places) * *r.pick(&[1i64, 60, 240]));
            v["d"] = match style {
                0 => json!([3, 2, 0]),
                1 => json!([r.range(2, 4), 2, 0]),
                2 => json!([r.range(1, 5), if r.chance(70) { 2 } else { r.range(2, 9) }, r.range(0, 2)]),
                _ => json!([r.below(8), r.range(2, 255), r.below(8)]),
            };
            notes.push(to_note(&v));
        }
        if far == 5000 && r.chance(12) {
            let later = if r.chance(50) { 0x8000_0000 - base as u32 - r.below(500) as u32 } else { r.range(0, 4_200_000_000) as u32 };
            tuplet_at(notes.clone(), later);
        }
        tuplet(notes);
    }
}

// ---- clipboard and pasting -------------------------------------------------

/// Every property of an item but its tick, and what the code derives from them.
fn rest(n: &Note) -> String {
    let id = enc::note_id(n);
    format!(
        "{}|{}|{}|{}|{}",
        id.split_once('|').unwrap().1, n.pitch.value(), n.pitch.score_offset(), milli(n.duration_trimmer.sum()),
        [n.start_tick_trimmer.sum(), n.velocity_trimmer.sum()].map(|x| x.to_string()).join(",")
    )
}
fn rhythm_str(r: Option<Rhythm>) -> String {
    r.map(|r| format!("{}/{}", r.numerator.value(), r.denominator.value())).unwrap_or_default()
}
fn key_str(k: Option<Key>) -> String {
    k.map(|k| k.offset().to_string()).unwrap_or_default()
}
fn bar_rest(b: &Bar) -> String {
    format!("{}|{}|{}", rhythm_str(b.rhythm), key_str(b.key), enc::marks(b.repeats))
}
fn ctrl_rest(c: &CtrlChg) -> String {
    format!("{}|{}", c.velocity.as_u8(), c.channel.as_u8())
}
/// All items: kind, tick and everything else.
fn items(m: &Models) -> Vec<Value> {
    let t = |x: u32| big(x as u128);
    let mut v = vec![];
    v.extend(m.notes.iter().map(|n| json!(["n", t(n.base_start_tick), rest(n)])));
    v.extend(m.bars.iter().map(|b| json!(["b", t(b.start_tick), bar_rest(b)])));
    v.extend(m.tempos.iter().map(|x| json!(["t", t(x.start_tick), x.value.as_u16().to_string()])));
    v.extend(m.dumpers.iter().map(|x| json!(["d", t(x.start_tick), ctrl_rest(x)])));
    v.extend(m.softs.iter().map(|x| json!(["f", t(x.start_tick), ctrl_rest(x)])));
    v
}
fn project_items(p: &ExportedProject) -> Vec<Value> {
    let mut v = vec![json!(["k", [], key_str(p.key)]), json!(["r", [], rhythm_str(p.rhythm)])];
    v.extend(items(&p.clone().to_models()));
    v
}

fn any_note(r: &mut Rng, tick: u32) -> Note {
    let mut n = to_note(&note_in(r, false));
    n.base_start_tick = tick;
    n
}
fn models(r: &mut Rng, most: u64, lo: i64, hi: i64) -> Models {
    let mut m = Models::empty();
    let tick = |r: &mut Rng| if r.chance(6) { *r.pick(&[lo, lo, lo + 1, hi, hi, hi - 1]) as u32 } else if r.chance(30) { lo as u32 + (r.range(0, hi - lo) >> 8) as u32 } else { r.range(lo, hi) as u32 };
    let which = r.below(32);
    let many = |r: &mut Rng, k: u64| if which & (1 << k) != 0 || which == 0 && r.chance(30) { r.below(most + 1) } else { 0 };
    for _ in 0..many(r, 0) {
        let t = tick(r);
        m.notes.push(any_note(r, t));
    }
    for _ in 0..many(r, 1) {
        let t = tick(r);
        m.bars.push(gen::bar(r, t));
    }
    for _ in 0..many(r, 2) {
        let t = tick(r);
        m.tempos.push(gen::tempo(r, t));
    }
    for _ in 0..many(r, 3) {
        let t = tick(r);
        m.dumpers.push(gen::ctrl(r, t));
    }
    for _ in 0..many(r, 4) {
        let t = tick(r);
        m.softs.push(gen::ctrl(r, t));
    }
    m
}
fn exported(r: &mut Rng, m: Models) -> ExportedProject {
    ExportedProject {
        key: if r.chance(60) { Some(gen::key(r)) } else { None },
        rhythm: if r.chance(60) { Some(gen::rhythm(r)) } else { None },
        notes: m.notes, bars: m.bars, tempos: m.tempos, dumpers: m.dumpers, softs: m.softs,
    }
}

fn verdict(e: &FromClipboardTextErr) -> (&'static str, u64) {
    match e {
        FromClipboardTextErr::VersionErr { detected_ver } => ("version", *detected_ver),
        FromClipboardTextErr::CannotParse { .. } => ("parse", 0),
        FromClipboardTextErr::EmptyString => ("empty", 0),
        FromClipboardTextErr::VersionNotU64 { .. } => ("novers", 0),
    }
}
fn err_json(e: &FromClipboardTextErr) -> Option<&str> {
    match e {
        FromClipboardTextErr::CannotParse { err_json, .. } | FromClipboardTextErr::VersionNotU64 { err_json } => Some(err_json),
        _ => None,
    }
}
/// The text is read as items or as a project. t: an error that quotes the text quotes it as it is
fn read(text: &str, project: bool) -> Value {
    let r = if project {
        ExportedProject::from_clipboard_text(text.to_owned()).map(|p| {
            let again = format!("1{}", serde_json::to_string(&p).unwrap());
            let q = ExportedProject::from_clipboard_text(again);
            let v = project_items(&p);
            (v.clone(), q.map(|q| project_items(&q) == v).unwrap_or(false))
        })
    } else {
        Models::from_clipboard_text(text.to_owned()).map(|m| {
            let q = Models::from_clipboard_text(m.to_clipboard_text());
            let v = items(&m);
            (v.clone(), q.map(|q| items(&q) == v).unwrap_or(false))
        })
    };
    match r {
        Ok((v, again)) => json!({"k": "ok", "m": v, "ver": [], "t": again}),
        Err(e) => {
            let (k, ver) = verdict(&e);
            json!({"k": k, "m": [], "ver": big(ver as u128), "t": err_json(&e).is_none_or(|t| t == text)})
        }
    }
}

/// Items and projects written and read back.
pub fn clips(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for k in 0..n {
        let m = models(&mut r, match k % 20 { 0 => if k % 60 == 20 { 1500 } else { 40 }, 1..=5 => 1, _ => 4 }, 0, u32::MAX as i64);
        rec("clip", json!(items(&m)), || read(&m.to_clipboard_text(), false));
        let p = exported(&mut r, m);
        rec("clip", json!(project_items(&p)), || read(&format!("1{}", serde_json::to_string(&p).unwrap()), true));
    }
}

const BLANKS: [&str; 4] = [" ", "\n", "\t  ", "\r\n "];

fn replace_once(s: &str, from: &str, to: &str) -> String {
    assert!(s.contains(from), "{} in {}", from, s);
    s.replacen(from, to, 1)
}

/// Texts put together from parts, good and bad ones, as described by the specification.
pub fn clip_scripts(path: &str, part: usize, parts: usize, seed: u64) {
    let mut r = Rng::new(seed);
    for s in lines_of(path, part, parts) {
        let p: Vec<&str> = s[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        for project in [false, true] {
            let mut m = models(&mut r, 2, 0, 5000);
            m.notes.push(any_note(&mut r, 7));
            m.bars.push(Bar::new(9, Some(Rhythm::new(3, 4)), Some(Key::FLAT_2), enc::mark_set(&[])));
            m.dumpers.push(gen::ctrl(&mut r, 11));
            m.tempos.push(Tempo::new(13, 777));
            let (body, want) = if project {
                let x = exported(&mut r, m.clone());
                (serde_json::to_string(&x).unwrap(), project_items(&x))
            } else {
                (serde_json::to_string(&m).unwrap(), items(&m))
            };
            let blank = |r: &mut Rng, x: &str| if x == "ws" { *r.pick(&BLANKS) } else { "" };
            let ver = match p[1] {
                "1" | "2" | "0" | "01" | "null" | "true" | "" => p[1],
                "max" => "18446744073709551615",
                "big" => "18446744073709551616",
                "neg" => "-1",
                "frac" => "1.5",
                "exp" => "1e0",
                "string" => "\"1\"",
                "array" => "[1]",
                "object" => "{}",
                "junk" => "x",
                "cut" => "[1,",
                x => panic!("{}", x),
            };
            let deep = "[".repeat(5000);
            let variants: Vec<String> = match p[3] {
                "" => vec![String::new()],
                "items" => vec![body.clone()],
                "object" => vec!["{}".into(), "{\"notes\":[]}".into()],
                "array" => vec!["[]".into(), "[[]]".into()],
                "null" => vec!["null".into()],
                "number" => vec!["5".into()],
                "missing" => ["notes", "bars", "tempos", "dumpers", "softs"].iter().map(|f| replace_once(&body, &format!("\"{}\":", f), "\"other\":")).collect(),
                "twice" => vec![replace_once(&body, "\"notes\":", "\"notes\":[],\"notes\":"), replace_once(&body, "\"softs\":", "\"softs\":[],\"softs\":")],
                "type" => vec![
                    replace_once(&body, "\"base_start_tick\":7,", "\"base_start_tick\":\"7\","),
                    replace_once(&body, "\"start_tick\":9,", "\"start_tick\":null,"),
                    replace_once(&body, "\"start_tick\":11,", "\"start_tick\":1.5,"),
                    replace_once(&body, "\"value\":777", "\"value\":[777]"),
                ],
                "range" => vec![
                    replace_once(&body, "\"base_start_tick\":7,", "\"base_start_tick\":4294967296,"),
                    replace_once(&body, "\"start_tick\":9,", "\"start_tick\":-1,"),
                    replace_once(&body, "\"value\":777", "\"value\":65536"),
                    replace_once(&body, "\"numerator\":3", "\"numerator\":0"),
                    replace_once(&body, "\"numerator\":3", "\"numerator\":100"),
                    replace_once(&body, "\"dots\":", "\"dots\":1"),
                    replace_once(&body, "\"channel\":", "\"channel\":9"),
                ],
                "pitch" => {
                    let mut bad = m.clone();
                    let n = bad.notes.len() - 1;
                    bad.notes.truncate(n);
                    bad.notes.push(Note { pitch: Pitch::new(Solfa::C, Octave::OctM2, SharpFlat::Null), ..any_note(&mut r, 3) });
                    let text = if project { serde_json::to_string(&exported(&mut r, bad)).unwrap() } else { serde_json::to_string(&bad).unwrap() };
                    vec![
                        text.replace("\"solfa\":\"C\",\"octave\":\"OctM2\",\"sharp_flat\":\"Null\"", "\"solfa\":\"C\",\"octave\":\"OctM2\",\"sharp_flat\":\"Flat\""),
                        text.replace("\"solfa\":\"C\",\"octave\":\"OctM2\",\"sharp_flat\":\"Null\"", "\"solfa\":\"A\",\"octave\":\"Oct8\",\"sharp_flat\":\"Null\""),
                    ]
                }
                "cut" => (0..3).map(|_| { let k = r.range(1, body.len() as i64 - 2) as usize; body[..k].to_string() }).collect(),
                "deep" => vec![deep.clone()],
                x => panic!("{}", x),
            };
            for b in variants {
                let (lead, gap, tail) = (blank(&mut r, p[0]), blank(&mut r, p[2]), if p[4] == "junk" { *r.pick(&["x", "}", "{", ",", "]"]) } else { blank(&mut r, p[4]) });
                let text = format!("{}{}{}{}{}", lead, ver, gap, b, tail);
                let junk = if p[4] == "junk" { tail } else { "" };
                rec("cliptext", json!({"p": p, "junk": junk, "m": want, "text": if text.len() < 300 { text.as_str() } else { "" }}), || read(&text, project));
            }
        }
    }
}

/// Every beginning of a text, and texts with arbitrary changes.
pub fn clip_damage(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for k in 0..n {
        let project = k % 2 == 1;
        let m = models(&mut r, 2, 0, 5000);
        let text = if project { format!("1{}", serde_json::to_string(&exported(&mut r, m)).unwrap()) } else { m.to_clipboard_text() };
        let step = if k < 4 { 1 } else { 17 };
        for cut in (0..text.len()).step_by(step).filter(|c| text.is_char_boundary(*c)) {
            rec("clipcut", json!(cut), || read(&text[..cut], project));
        }
        for _ in 0..60 {
            let mut b: Vec<char> = text.chars().collect();
            for _ in 0..r.range(1, 3) {
                if b.is_empty() {
                    break;
                }
                let at = r.usize(b.len());
                match r.below(5) {
                    0 => { b.remove(at); }
                    1 => b[at] = *r.pick(&['0', '9', '-', '"', ',', '{', '}', '[', ']', ':', 'e', '.', ' ', '\u{663}', '\\', 'n']),
                    2 => b.insert(at, *r.pick(&['0', '9', '-', '"', ',', '{', '}', '[', ']', ':', 'e', '.', '\u{0}', '1'])),
                    3 => {
                        let x = r.usize(b.len());
                        b.swap(at, x)
                    }
                    _ => {
                        let to = (at + r.usize(12)).min(b.len());
                        b.drain(at..to);
                    }
                }
            }
            let t: String = b.into_iter().collect();
            rec("clipmut", json!({"v": t.trim_start().starts_with('1')}), || read(&t, project));
        }
    }
}

fn paste(m: Models, to: &[u32]) {
    rec("paste", json!({"m": items(&m), "to": to.iter().map(|t| big(*t as u128)).collect::<Vec<_>>()}), || {
        let mut cur = m.clone();
        json!(to.iter().map(|t| { cur = cur.clone().move_to_tick(*t); items(&cur) }).collect::<Vec<_>>())
    });
}

pub fn paste_scripts(path: &str, part: usize, parts: usize) {
    let mut r = Rng::new(part as u64);
    for s in lines_of(path, part, parts) {
        let mut m = Models::empty();
        for x in s[0].as_array().unwrap() {
            let t = x[1].as_u64().unwrap() as u32;
            match x[0].as_str().unwrap() {
                "n" => m.notes.push(any_note(&mut r, t)),
                "b" => m.bars.push(gen::bar(&mut r, t)),
                "t" => m.tempos.push(gen::tempo(&mut r, t)),
                "d" => m.dumpers.push(gen::ctrl(&mut r, t)),
                _ => m.softs.push(gen::ctrl(&mut r, t)),
            }
        }
        let to: Vec<u32> = s[1].as_array().unwrap().iter().map(|t| t.as_u64().unwrap() as u32).collect();
        paste(m, &to);
    }
}

pub fn pastes(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let (lo, hi) = match r.below(4) {
            0 => (0, 10),
            1 => (0, 4000),
            2 => (3_000_000_000, 3_000_100_000),
            _ => (0, 2_000_000_000),
        };
        let most = if r.chance(1) { 600 } else { 5 };
        let m = models(&mut r, most, lo, hi);
        // the last item must stay below 2^32
        let span = hi - lo;
        let to: Vec<u32> = (0..r.range(1, 3))
            .map(|_| match r.below(4) {
                0 => 0,
                1 => r.range(0, 5000) as u32,
                2 => lo as u32,
                _ => r.range(0, u32::MAX as i64 - span) as u32,
            })
            .collect();
        paste(m, &to);
    }
}

// ---- undo history -----------------------------------------------------------

fn edit(k: u64) -> Undo {
    let models = |x: u64| Models { tempos: vec![Tempo::new(x as u32, (x % 900) as u16 + 1)], ..Models::empty() };
    Undo::Changed { added: models(k), removed: models(k + 100_000), metadata: if k % 2 == 0 { ModelChangeMetadata::new() } else { ModelChangeMetadata::new().with_need_select(k % 3 == 0) } }
}
/// The number of an edit; -1 if it is none that was added.
fn edit_no(u: &Undo) -> i64 {
    let Undo::Changed { added, .. } = u;
    match added.tempos.first() {
        Some(t) if *u == edit(t.start_tick as u64) => t.start_tick as i64,
        _ => -1,
    }
}

fn stack(cap: u64, ops: &[Value]) {
    rec("stack", json!({"cap": cap, "ops": ops}), || {
        // 100 is what it remembers when nobody says how much
        let mut s = if cap == 100 { UndoStore::default() } else { UndoStore::new(cap as usize) };
        let mut out = vec![];
        for op in ops {
            let got = match op[0].as_str().unwrap() {
                "add" => { s.add(edit(op[1].as_u64().unwrap())); 0 }
                "undo" => s.undo().map(edit_no).unwrap_or(0),
                "redo" => s.redo().map(edit_no).unwrap_or(0),
                "freeze" => { s.freeze(true); 0 }
                _ => { s.freeze(false); 0 }
            };
            out.push(json!({"got": got, "u": s.can_undo(), "r": s.can_redo(), "len": s.len(), "all": s.iter().map(edit_no).collect::<Vec<_>>()}));
        }
        json!(out)
    });
}

pub fn stack_scripts(path: &str, part: usize, parts: usize) {
    for s in lines_of(path, part, parts) {
        stack(s[0].as_u64().unwrap(), s[1].as_array().unwrap());
    }
}

pub fn stacks(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let cap = if r.chance(50) { r.range(1, 6) } else if r.chance(20) { 100 } else { r.range(0, 100) } as u64;
        let mut ops = vec![];
        let mut k = 0;
        let adds = r.range(20, 70) as u64;
        for _ in 0..r.range(1, if cap > 6 { 250 } else { 40 }) {
            ops.push(if r.chance(adds) {
                k += 1;
                json!(["add", k])
            } else {
                json!([*r.pick(&["undo", "undo", "undo", "redo", "redo", "freeze", "thaw", "thaw"]), 0])
            });
        }
        stack(cap, &ops);
    }
}

// ---- grid -------------------------------------------------------------------

fn grid_of(g: u32) -> Grid {
    Grid::from_u32(g).expect("grid")
}

pub fn grid(part: u64, parts: u64, most: u64, reach: i64) {
    for g in (1..=most).filter(|g| g % parts == part) {
        rec("grid", json!({"g": g, "from": -reach}), || json!((-reach..=reach).map(|t| grid_of(g as u32).snap(t)).collect::<Vec<_>>()));
    }
}

fn signed(v: i64) -> Value {
    json!([if v < 0 { 1 } else { 0 }, big(v.unsigned_abs() as u128)])
}

pub fn grids(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let g = match r.below(4) {
            0 => u32::MAX - r.below(3) as u32,
            1 => r.range(1, 5000) as u32,
            _ => r.range(1, u32::MAX as i64) as u32,
        };
        let t: i64 = match r.below(4) {
            0 => r.range(-10_000, 10_000),
            1 => (g as i64) * r.range(-1_000_000, 1_000_000) + *r.pick(&[0i64, 1, -1]) + if r.chance(50) { g as i64 / 2 } else { 0 },
            2 => r.range(-(1 << 60), 1 << 60),
            _ => r.range(-5_000_000_000, 5_000_000_000),
        };
        rec("snap", json!({"g": big(g as u128), "t": signed(t)}), || {
            let o = grid_of(g).snap(t);
            // how many grids it is away from 0: the specification checks it
            json!({"o": signed(o), "k": big((o.unsigned_abs() / g as u64) as u128), "m": signed(grid_of(g).snap(-t))})
        });
    }
    for _ in 0..n {
        let t = text(&mut r, "grid");
        grid_text(&t);
    }
    // every short text of these
    for len in 1..=4 {
        for x in 0..9usize.pow(len) {
            if x as u64 % 8 != seed % 8 { continue; }
            let mut y = x;
            grid_text(&(0..len).map(|_| { let c = ['0', '1', '9', '+', '-', '.', ' ', 'e', ','][y % 9]; y /= 9; c }).collect::<String>());
        }
    }
    for t in ["", "0", "1", "+0", "-0", "00", "+1", "4294967295", "4294967296", "4294967297", " 1", "1 ", "1.0", "٣", "0x10", "1_000", "18446744073709551617"] {
        grid_text(t);
    }
    for g in [0u32, 1, 2, u32::MAX] {
        rec("grid_u32", json!(big(g as u128)), || match Grid::from_u32(g) {
            Ok(x) => json!(["ok", big(x.as_u32() as u128)]),
            Err(_) => json!(["err"]),
        });
    }
}

fn grid_text(t: &str) {
    rec("gridtext", chars(t), || match Grid::value_of(t) {
        Ok(g) => json!(["ok", big(g.as_u32() as u128), chars(&g.to_string())]),
        Err(_) => json!(["err"]),
    });
}

// ---- texts ------------------------------------------------------------------

fn chars(s: &str) -> Value {
    json!(s.chars().map(|c| if c.is_ascii_graphic() || c == ' ' { c.to_string() } else { format!("U+{:04X}", c as u32) }).collect::<Vec<_>>())
}

fn op_text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(|x| x.as_str().unwrap()).collect(),
        _ => String::new(),
    }
}
fn byte_at(s: &str, k: usize) -> usize {
    s.char_indices().nth(k).map(|(i, _)| i).unwrap_or(s.len())
}
fn edit_text(b: &mut String, op: &Value) {
    let k = op[1].as_u64().unwrap() as usize;
    let t = op_text(&op[2]);
    match op[0].as_str().unwrap() {
        "set" => *b = t,
        "push" => b.push_str(&t),
        "pop" => { b.pop(); }
        "ins" => { let i = byte_at(b, k); b.insert_str(i, &t) }
        "del" => { let i = byte_at(b, k); b.remove(i); }
        "clear" => b.clear(),
        o => panic!("{}", o),
    }
}

trait Shown {
    fn shown(&self) -> Value;
    /// what other readers of the same text make of it
    fn others(_: &str) -> Vec<Value> { vec![] }
}
impl Shown for Location {
    fn shown(&self) -> Value { json!(["ok", big(self.bar_no() as u128), big(self.offset() as u128)]) }
    fn others(s: &str) -> Vec<Value> {
        [Location::parse(s), klavier_core::location::parse_location(s)].iter().map(|x| x.map(|l| l.shown()).unwrap_or(json!(["err"]))).collect()
    }
}
impl Shown for i16 {
    fn shown(&self) -> Value { json!(["ok", self]) }
}
impl Shown for TempoValue {
    fn shown(&self) -> Value { json!(["ok", self.as_u16()]) }
}
impl Shown for Velocity {
    fn shown(&self) -> Value { json!(["ok", self.as_u8()]) }
}
impl Shown for rhythm::Numerator {
    fn shown(&self) -> Value { json!(["ok", self.value()]) }
}
impl Shown for Denominator {
    fn shown(&self) -> Value { json!(["ok", self.value()]) }
}
impl Shown for PercentU16 {
    fn shown(&self) -> Value { json!(["ok", milli(*self)]) }
}

fn shown<T: Shown, E>(r: &Result<Validated<Option<T>>, E>) -> Value {
    match r {
        Ok(Validated(None)) => json!(["none"]),
        Ok(Validated(Some(v))) => v.shown(),
        Err(_) => json!(["err"]),
    }
}

fn typed<T: Shown, E>(first: &str, ops: &[Value]) -> Value
where
    Validated<Option<T>>: FromStr<Err = E>,
{
    let mut t: TextInput<Option<T>, E> = TextInput::from_string(first.to_owned());
    // readers disagree: what the other one says
    let look = |t: &TextInput<Option<T>, E>| {
        let v = shown(t.validate());
        let other = if t.input().is_empty() { None } else { T::others(t.input()).into_iter().find(|x| *x != v) };
        json!([chars(t.input()), match other { Some(x) => json!(["differs", v, x]), None => v }])
    };
    let mut out = vec![look(&t)];
    for op in ops {
        t.mutate(|b| edit_text(b, op));
        out.push(look(&t));
    }
    json!(out)
}

/// The specification sees the characters, the code the text.
fn spec_ops(ops: &[Value]) -> Value {
    json!(ops.iter().map(|o| if o[0] == "set" { json!(["set", o[1], chars(&op_text(&o[2]))]) } else { json!([o[0], o[1], chars(&op_text(&o[2])).get(0).cloned().unwrap_or(json!(""))]) }).collect::<Vec<_>>())
}

fn input(kind: &str, first: &str, ops: &[Value]) {
    rec("input", json!({"kind": kind, "first": chars(first), "ops": spec_ops(ops)}), || match kind {
        "location" => typed::<Location, _>(first, ops),
        "i16" => typed::<i16, _>(first, ops),
        "tempo" => typed::<TempoValue, _>(first, ops),
        "velocity" => typed::<Velocity, _>(first, ops),
        "numerator" => typed::<rhythm::Numerator, _>(first, ops),
        "denominator" => typed::<Denominator, _>(first, ops),
        "percent" => typed::<PercentU16, _>(first, ops),
        k => panic!("{}", k),
    });
}

pub fn input_scripts(path: &str, part: usize, parts: usize) {
    for s in lines_of(path, part, parts) {
        input(s[0].as_str().unwrap(), "", s[1].as_array().unwrap());
    }
}

fn number_text(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(25) {
        s.push(*r.pick(&['-', '+']));
    }
    match r.below(12) {
        0 => s.push_str(r.pick(&["65535", "65536", "65537", "32767", "32768", "32769", "255", "256", "257", "127", "128", "999", "1000", "99", "100", "0", "1", "2"])),
        1 => s.push_str(&"0".repeat(r.usize(30))),
        2 => s.push_str(r.pick(&["18446744073709551615", "18446744073709551616", "4294967295", "4294967296", "99999999999999999999999"])),
        3..=5 => s.push_str(&r.below(1200).to_string()),
        6 => s.push_str(&r.below(70_000).to_string()),
        _ => {
            for _ in 0..r.range(1, 22) {
                s.push(*r.pick(&['0', '1', '2', '5', '9']));
            }
        }
    }
    if r.chance(8) {
        s.insert_str(0, "000");
    }
    s
}
const ODD: [char; 22] = [' ', '\t', '.', ',', '-', '+', 'e', 'E', ':', 'x', '٣', '۷', '５', 'Ⅳ', '½', '²', 'a', '_', '\u{0}', '\u{200b}', '\u{1F600}', '\n'];

fn text(r: &mut Rng, kind: &str) -> String {
    let mut s = match kind {
        "location" if r.chance(85) => format!("{}{}{}", number_text(r), if r.chance(95) { ":" } else { "" }, number_text(r)),
        "percent" => match r.below(10) {
            0 => r.pick(&["nan", "NaN", "-nan", "inf", "-inf", "+inf", "INFINITY", "infinit", "1e400", "1e-400", "-1e9", ".5", "5.", ".", "e", "e5", "1e", "1e+", "1e+2", "1E-3", "0x1", "1f", "2.0000001", "2.001", "-0", "-0.0", "1_0"]).to_string(),
            1..=3 => format!("{}.{}", r.below(3), number_text(r)),
            4 => format!("{}.{:03}", r.below(2), r.below(1000)),
            5 => format!("{}e{}", number_text(r), r.range(-25, 25)),
            6 => format!("{}.{}e{}{}", r.below(100), r.below(100_000), *r.pick(&["", "+", "-"]), r.below(8)),
            7 => format!("0.{}{}", "0".repeat(r.usize(12)), r.below(100_000)),
            _ => number_text(r),
        },
        _ => number_text(r),
    };
    if r.chance(15) {
        let k = r.usize(s.chars().count() + 1);
        let i = byte_at(&s, k);
        s.insert(i, *r.pick(&ODD));
    }
    if r.chance(3) {
        s.clear();
    }
    s
}

const KINDS: [&str; 7] = ["location", "i16", "tempo", "velocity", "numerator", "denominator", "percent"];

pub fn texts(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for k in 0..n {
        let kind = KINDS[(k % 7) as usize];
        let first = if r.chance(50) { text(&mut r, kind) } else { String::new() };
        let mut len = first.chars().count();
        let mut ops = vec![];
        for _ in 0..r.range(0, 6) {
            let c = if r.chance(80) { *r.pick(&['0', '1', '2', '9', '5', ':', '-', '.']) } else { *r.pick(&ODD) };
            let op = match r.below(8) {
                0..=2 => {
                    let t = text(&mut r, kind);
                    len = t.chars().count();
                    json!(["set", 0, t])
                }
                3 => { len += 1; json!(["push", 0, c.to_string()]) }
                4 => { len = len.saturating_sub(1); json!(["pop", 0, ""]) }
                5 => { let at = r.usize(len + 1); len += 1; json!(["ins", at, c.to_string()]) }
                6 if len > 0 => { len -= 1; json!(["del", r.usize(len + 1), ""]) }
                _ => { len = 0; json!(["clear", 0, ""]) }
            };
            ops.push(op);
        }
        input(kind, &first, &ops);
    }
}

/// The text form of every value, and what is read from it.
pub fn forms(part: u64, parts: u64, seed: u64) {
    fn form<T: Shown, E>(kind: &str, v: T, t: impl FnOnce(&T) -> String)
    where
        Validated<Option<T>>: FromStr<Err = E>,
    {
        let s = v.shown();
        rec("form", json!({"kind": kind, "v": s}), move || {
            let t = t(&v);
            let i: TextInput<Option<T>, E> = TextInput::from_string(t.clone());
            json!([chars(&t), shown(i.validate())])
        });
    }
    let mine = |x: i64| x.rem_euclid(parts as i64) as u64 == part;
    for v in (0..=2000).filter(|v| mine(*v)) {
        form("percent", PercentU16::from_value(v as u16), |x| x.to_string());
        rec("rate_of", json!(v), || json!(milli(PercentU16::from(PercentU16::from_value(v as u16).to_f32()))));
    }
    for v in (0..128).filter(|v| mine(*v)) {
        form("velocity", Velocity::new(v as u8), |x| x.to_string());
    }
    for v in (1..=999).filter(|v| mine(*v)) {
        form("tempo", TempoValue::new(v as u16), |x| x.as_u16().to_string());
    }
    for v in (1..=99).filter(|v| mine(*v)) {
        form("numerator", rhythm::Numerator::from_value(v as u8).ok().unwrap(), |x| x.to_string());
    }
    for v in (2..=255).filter(|v| mine(*v)) {
        form("denominator", Denominator::from_value(v as u8).unwrap(), |x| x.to_string());
    }
    for v in (-32768..=32767).filter(|v| mine(*v) && (v / 8) % 16 == 0 || *v == 32767) {
        form("i16", v as i16, |x| x.to_string());
    }
    let mut r = Rng::new(seed * 8 + part);
    for _ in 0..1500 {
        let x = |r: &mut Rng| match r.below(4) { 0 => r.below(20), 1 => r.below(100_000), 2 => u64::MAX - r.below(3), _ => r.next() };
        let l = Location::new(x(&mut r) as usize, x(&mut r) as usize);
        form("location", l, |x| x.to_string());
        // velocities are limited wherever they come from
        let v = r.below(256);
        rec("velocity", json!(v), || json!([Velocity::new(v as u8).as_u8(), serde_json::from_str::<Velocity>(&v.to_string()).unwrap().as_u8()]));
        let t = r.below(65536);
        rec("tempo", json!(t), || json!([TempoValue::safe_new(t as u16).as_u16(), serde_json::from_str::<TempoValue>(&t.to_string()).unwrap().as_u16()]));
    }
}

// ---- events -----------------------------------------------------------------

enum Event {
    T(Tempo),
    B(Bar),
    P(CtrlChg),
}
fn event(e: &Event) -> Value {
    match e {
        Event::T(t) => json!({"t": agreed(&[t.start_tick, t.start_tick(), t.base_start_tick()]), "v": t.value.as_u16(), "x": ""}),
        Event::B(b) => json!({"t": agreed(&[b.start_tick, b.start_tick(), b.base_start_tick()]), "v": 64, "x": bar_rest(b)}),
        Event::P(c) => json!({"t": agreed(&[c.start_tick, c.start_tick(), c.base_start_tick()]), "v": c.velocity.as_u8(), "x": c.channel.as_u8().to_string()}),
    }
}
fn event_op(e: &Event, op: &Value) -> Option<Event> {
    let i = |k: usize| op[k].as_i64().unwrap() as i32;
    match (e, op[0].as_str().unwrap()) {
        (Event::T(t), "move") => t.with_tick_added(i(1)).ok().map(Event::T),
        (Event::B(t), "move") => t.with_tick_added(i(1)).ok().map(Event::B),
        (Event::P(t), "move") => t.with_tick_added(i(1)).ok().map(Event::P),
        (Event::T(t), "drag") => Some(Event::T(t.drag(i(1), i(2)))),
        (Event::B(t), "drag") => Some(Event::B(t.drag(i(1)))),
        (Event::P(t), "drag") => Some(Event::P(t.drag(i(1)))),
        (Event::T(t), "up") => t.up().ok().map(Event::T),
        (Event::T(t), "down") => t.down().ok().map(Event::T),
        (Event::T(t), "new") => Some(Event::T(Tempo::new(t.start_tick, t.value.as_u16()))),
        (Event::B(t), "new") => Some(Event::B(Bar::new(t.start_tick, t.rhythm, t.key, t.repeats))),
        (Event::P(t), "new") => Some(Event::P(CtrlChg::new(t.start_tick, t.velocity, t.channel))),
        (_, o) => panic!("{}", o),
    }
}
fn events_of(kind: &str, first: Event, ops: &[Value]) {
    rec("event", json!({"kind": kind, "e": event(&first), "ops": ops}), || {
        let mut e = first;
        let mut out = vec![];
        for op in ops {
            match event_op(&e, op) {
                Some(x) => {
                    out.push(json!(["ok", event(&x)]));
                    e = x;
                }
                None => out.push(json!(["err", {}])),
            }
        }
        json!(out)
    });
}
fn first_event(r: &mut Rng, kind: &str, t: u32, v: u16) -> Event {
    match kind {
        "tempo" => Event::T(Tempo::new(t, v)),
        "bar" => Event::B(Bar { start_tick: t, ..gen::bar(r, 0) }),
        _ => Event::P(CtrlChg { start_tick: t, velocity: Velocity::new(v as u8), ..gen::ctrl(r, 0) }),
    }
}

pub fn event_scripts(path: &str, kind: &str, part: usize, parts: usize) {
    let mut r = Rng::new(part as u64);
    for s in lines_of(path, part, parts) {
        let e = first_event(&mut r, kind, s[0]["t"].as_u64().unwrap() as u32, s[0]["v"].as_u64().unwrap() as u16);
        events_of(kind, e, s[1].as_array().unwrap());
    }
}

pub fn events(seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for k in 0..n {
        let kind = ["tempo", "bar", "pedal"][(k % 3) as usize];
        let t = if r.chance(20) { r.range(0, 1_000_000_000) } else { r.range(0, 5000) };
        let v = if kind == "tempo" { r.range(1, 999) } else { r.range(0, 127) } as u16;
        let mut low = t;
        let mut ops = vec![];
        for _ in 0..r.range(1, 8) {
            let op = match r.below(4) {
                0 if kind == "tempo" => json!([*r.pick(&["up", "down"])]),
                2 if r.chance(25) => json!(["new"]),
                1 => {
                    let most = if r.chance(50) { 100_000 } else { 100_000_000 };
                    let d = if r.chance(70) { r.range(-low.min(700), 700) } else { r.range(-low, most) };
                    low += d;
                    json!(["drag", d, if kind == "tempo" { match r.below(4) { 0 => r.range(-2_000_000_000, 2_000_000_000), 1 => 0, _ => r.range(-1100, 1100) } } else { 0 }])
                }
                _ => {
                    let d = match r.below(3) { 0 => -low + r.range(-2, 2), 1 => r.range(-600, 600), _ => r.range(-1_000_000_000, 100_000_000) };
                    if low + d >= 0 {
                        low += d;
                    }
                    json!(["move", d])
                }
            };
            ops.push(op);
        }
        let e = first_event(&mut r, kind, t as u32, v);
        events_of(kind, e, &ops);
        // ticks and distances beyond 2^31
        let t = r.range(0, u32::MAX as i64) as u32;
        let d = match r.below(3) { 0 => i32::MIN as i64, 1 => i32::MAX as i64, _ => r.range(i32::MIN as i64, i32::MAX as i64) };
        if t as i64 + d > u32::MAX as i64 {
            continue;
        }
        let e = first_event(&mut r, kind, t, v);
        rec("farmove", json!({"kind": kind, "t": big(t as u128), "d": signed(d)}), || {
            let tick = |e: &Event| big(match e { Event::T(x) => x.start_tick, Event::B(x) => x.start_tick, Event::P(x) => x.start_tick } as u128);
            let rest = |e: &Event| { let v = event(e); json!([v["v"], v["x"]]) };
            match event_op(&e, &json!(["move", d])) {
                Some(x) => json!(["ok", tick(&x), rest(&x) == rest(&e)]),
                None => json!(["err"]),
            }
        });
    }
    for k in 0..n {
        // drags over any distance
        let kind = ["tempo", "bar", "pedal", "note"][(k % 4) as usize];
        let t = r.range(0, u32::MAX as i64);
        let to = if r.chance(20) { *r.pick(&[0, u32::MAX as i64]) } else { r.range(0, u32::MAX as i64) };
        let d = (to - t).clamp(i32::MIN as i64, i32::MAX as i64);
        rec("farmove", json!({"kind": kind, "t": big(t as u128), "d": signed(d)}), || {
            if kind == "note" {
                let a = Note { base_start_tick: t as u32, ..gen::note(&mut Rng::new(seed + k), 0) };
                let b = a.drag(d as i32, 0);
                json!(["ok", big(b.base_start_tick as u128), Note { base_start_tick: t as u32, ..b } == a])
            } else {
                let e = first_event(&mut Rng::new(seed + k), kind, t as u32, 100);
                let x = event_op(&e, &json!(["drag", d, 0])).unwrap();
                let tick = match &x { Event::T(x) => x.start_tick, Event::B(x) => x.start_tick, Event::P(x) => x.start_tick };
                let rest = |e: &Event| { let v = event(e); json!([v["v"], v["x"]]) };
                json!(["ok", big(tick as u128), rest(&x) == rest(&e)])
            }
        });
    }
    // tempos alone
    for v in 1..=999u16 {
        rec("tempo_step", json!(v), || {
            let t = TempoValue::new(v);
            let o = |x: Option<u16>| x.map(|v| json!(["ok", v])).unwrap_or(json!(["err"]));
            json!([o(t.up().ok().map(|x| x.as_u16())), o(t.down().ok().map(|x| x.as_u16()))])
        });
    }
}

// ---- durations and rhythms --------------------------------------------------

pub fn durations(part: u64, parts: u64) {
    let d = |n: usize, m: u8, k: u8| Duration::new(NUMERATORS[n], Denominator::from_value(m).unwrap(), Dots::from_value(k).unwrap());
    for m in (2..=255u64).filter(|m| m % parts == part) {
        let m = m as u8;
        for n in 0..8 {
            rec("dur", json!([n, m]), || json!((0..8).map(|k| d(n, m, k).tick_length()).collect::<Vec<_>>()));
            rec("changed", json!([n, m]), || {
                json!((0..8u8).map(|k| {
                    let x = d(n, m, k);
                    let (n2, m2, k2) = ((n + k as usize + 1) % 8, (m as u16 * 7 + k as u16) % 254 + 2, (k + 3) % 8);
                    json!([
                        [n2, m2, k2],
                        duration(x.with_numerator(NUMERATORS[n2])), duration(x.with_denominator(Denominator::from_value(m2 as u8).unwrap())),
                        duration(x.with_dots(Dots::from_value(k2).unwrap())),
                        duration(d(n2, m2 as u8, k2).min(x)),
                        num_no(x.numerator)
                    ])
                }).collect::<Vec<_>>())
            });
        }
    }
    for n in (0..256u64).filter(|m| m % parts == part) {
        let n = n as u8;
        rec("rhythm", json!(n), || {
            json!((0..=255u8).map(|m| match Rhythm::value_of(n, m) {
                Ok(r) => json!([1, r.numerator().value(), r.denominator().value(), r.tick_len()]),
                Err(_) => json!([0, 0, 0, 0]),
            }).collect::<Vec<_>>())
        });
        rec("parts", json!(n), || {
            json!([
                Numerator::from_ord(n).map(|x| vec![x.ord() as i64, num_no(x)]).unwrap_or_default(),
                Denominator::from_value(n).map(|x| vec![x.value() as i64]).unwrap_or_default(),
                Dots::from_value(n).map(|x| vec![x.value() as i64]).unwrap_or_default(),
                rhythm::Numerator::from_value(n).map(|x| vec![x.value() as i64]).unwrap_or_default(),
                rhythm::Denominator::from_value(n).map(|x| vec![x.value() as i64, x.to_string().parse().unwrap()]).unwrap_or_default(),
            ])
        });
    }
}
