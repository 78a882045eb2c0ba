//! Values with few possibilities: made of numbers, read from texts, stepped to their limits and beyond.
use crate::util::*;
use klavier_core::bar::{RepeatSet, VarIndex};
use klavier_core::channel::Channel;
use klavier_core::clipper;
use klavier_core::duration::{Denominator, Dots, Numerator};
use klavier_core::fly_weight::FlyWeight;
use klavier_core::key::Key;
use crate::enc::MARKS;
use klavier_core::duration::Duration;
use klavier_core::grid::Grid;
use klavier_core::note::Note;
use klavier_core::octave::{self, Octave};
use klavier_core::percent::PercentU16;
use klavier_core::pitch::{self, Pitch};
use klavier_core::play_iter::{PlayIter, MAX_ITER};
use klavier_core::rhythm::Rhythm;
use klavier_core::tempo::{self, Tempo};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity;
use klavier_core::play_start_tick::PlayStartTick;
use klavier_core::rhythm;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::TempoValue;
use klavier_core::velocity::Velocity;
use serde_json::{json, Value};

fn of<T>(v: Option<T>, f: impl Fn(T) -> i64) -> Value {
    match v {
        Some(x) => json!({"k": "ok", "v": f(x)}),
        None => json!({"k": "err", "v": 0}),
    }
}

macro_rules! read {
    ($t:ty, $text:expr, $f:expr) => { of(serde_json::from_str::<$t>($text).ok(), $f) };
}

fn made(kind: &str, n: i64) -> Vec<Value> {
    let b = n as u8;
    match kind {
        "iter" => vec![of(Some(PlayIter::new(b)), |x| x.iter() as i64), of(Some(PlayStartTick::new(n as u32, b)), |x| x.iter.iter() as i64)],
        "ending" => vec![of(VarIndex::from_value(b).ok(), |x| x.value() as i64)],
        "channel" => vec![of(Channel::try_from(b).ok(), |x| x.as_u8() as i64)],
        "dots" => vec![of(Dots::from_value(b), |x| x.value() as i64), of(Dots::try_from(b).ok(), |x| x.value() as i64)],
        "tuplet" => vec![of(Denominator::from_value(b), |x| x.value() as i64), of(Denominator::from_value(b), |x| x.to_string().parse().unwrap())],
        "length" => vec![of(Numerator::from_ord(b), |x| x.ord() as i64)],
        "beats" => vec![of(rhythm::Numerator::from_value(b).ok(), |x| x.value() as i64), of(rhythm::Numerator::try_from(b).ok(), |x| x.value() as i64)],
        "unit" => vec![of(rhythm::Denominator::from_value(b).ok(), |x| x.value() as i64)],
        "velocity" => vec![of(Some(Velocity::new(b)), |x| x.as_u8() as i64)],
        "tempo" => vec![of(Some(TempoValue::safe_new(n as u16)), |x| x.value() as i64)],
        "octave" => vec![of(Octave::value_of(n as i32).ok(), |x| x.value() as i64)],
        "name" => vec![of(Some(Solfa::from_score_offset(n as i32)), |x| x.score_offset() as i64)],
        _ => panic!("harness: kind {}", kind),
    }
}

fn taken(kind: &str, text: &str) -> Value {
    match kind {
        "channel" => read!(Channel, text, |x| x.as_u8() as i64),
        "dots" => read!(Dots, text, |x| x.value() as i64),
        "tuplet" => read!(Denominator, text, |x| x.value() as i64),
        "beats" => read!(rhythm::Numerator, text, |x| x.value() as i64),
        "velocity" => read!(Velocity, text, |x| x.as_u8() as i64),
        "tempo" => read!(TempoValue, text, |x| x.value() as i64),
        "key" => read!(Key, text, |x| x.offset() as i64),
        _ => panic!("harness: kind {}", kind),
    }
}

/// What has a name of its own.
fn named() {
    rec("named", json!("numbers"), || json!({
        "dots": ([Dots::ZERO, Dots::ONE, Dots::TWO, Dots::THREE, Dots::FOUR, Dots::FIVE, Dots::SIX, Dots::SEVEN].map(|x| x.value())),
        "sharps": ([Key::NONE, Key::SHARP_1, Key::SHARP_2, Key::SHARP_3, Key::SHARP_4, Key::SHARP_5, Key::SHARP_6, Key::SHARP_7].map(|x| x.offset())),
        "flats": ([Key::NONE, Key::FLAT_1, Key::FLAT_2, Key::FLAT_3, Key::FLAT_4, Key::FLAT_5, Key::FLAT_6, Key::FLAT_7].map(|x| -x.offset())),
        "velocity": [velocity::MIN.as_u8(), velocity::MAX.as_u8(), velocity::MIN_VALUE, velocity::MAX_VALUE],
        "tempo": [tempo::MIN_TEMPO.value(), tempo::MAX_TEMPO.value(), tempo::MIN_TEMPO_VALUE, tempo::MAX_TEMPO_VALUE],
        "octave": ([octave::MIN, octave::MAX, Octave::MIN_VALUE, Octave::MAX_VALUE].map(|x| x.value())),
        "percent": ([PercentU16::MIN, PercentU16::MAX, PercentU16::ZERO, PercentU16::HUNDRED].map(|x| (x.to_f32() * 1000.0).round() as i64)),
        "pitch": ([pitch::MIN, pitch::MAX].map(|x| x.value() as i64)),
        "beats": [rhythm::MIN_NUMERATOR, rhythm::MAX_NUMERATOR],
        "duration": [Duration::MAX_NUMERATOR as i64, Duration::MIN_DENOMINATOR as i64, Duration::MAX_DENOMINATOR as i64, Duration::MAX_DOT as i64,
            Duration::TICK_RESOLUTION as i64],
        "iter": [MAX_ITER],
    }));
    rec("named", json!("lists"), || json!({
        "octave": Octave::ALL.iter().map(|x| x.value()).collect::<Vec<_>>(),
        "name": Solfa::ALL.iter().map(|x| x.score_offset()).collect::<Vec<_>>(),
        "key": ({ let mut v = Key::ALL.iter().map(|x| x.offset()).collect::<Vec<_>>(); v.sort(); v }),
        "unit": ({ let mut v = rhythm::DENOMINATORS.iter().map(|x| x.value()).collect::<Vec<_>>(); v.sort(); v }),
    }));
    rec("named", json!("fresh"), || {
        let n = Note::default();
        let d = Duration::default();
        let t = Tempo::default();
        let rh = Rhythm::default();
        json!({
            "note": [n.base_start_tick as i64, n.tick_len() as i64, n.start_tick() as i64, n.velocity().as_u8() as i64, n.channel.as_u8() as i64, n.tie as i64, n.tied as i64],
            "duration": [d.numerator.ord() as i64, d.denominator.value() as i64, d.dots.value() as i64],
            "tempo": [t.start_tick as i64, t.value.value() as i64], "rhythm": [rh.numerator().value() as i64, rh.denominator().value() as i64],
            "grid": Grid::default().as_u32(), "marks": RepeatSet::default().len(), "pitch": Pitch::default().value() as i64,
            "trims": ([Trimmer::ZERO.to_vec(), Trimmer::default().to_vec()]),
            "rates": ([RateTrimmer::ONE, RateTrimmer::default()].map(|x| x.to_vec().iter().map(|y| (y.to_f32() * 1000.0).round() as i64).collect::<Vec<_>>())),
        })
    });
    rec("named", json!("marks"), || json!(MARKS.iter().map(|(m, c)| [c.to_string(), m.to_string()]).collect::<Vec<_>>()));
}

pub fn all(seed: u64) {
    for kind in ["iter", "ending", "channel", "dots", "tuplet", "length", "beats", "unit", "velocity"] {
        for n in 0..=255 {
            rec("made", json!([kind, n]), || json!(made(kind, n)));
        }
    }
    for n in 0..=0xffff_i64 {
        if n < 1100 || n % 97 == 0 || n > 0xff00 {
            rec("made", json!(["tempo", n]), || json!(made("tempo", n)));
        }
    }
    // no number is turned away but by a panic
    for n in 0..=255u8 {
        rec("strict", json!(["channel", n]), || of(std::panic::catch_unwind(|| Channel::new(n)).ok(), |x| x.as_u8() as i64));
    }
    for n in (1..=1100u16).chain([9999, 32767, 32768, 65534, 65535]) {
        rec("strict", json!(["tempo", n]), || of(std::panic::catch_unwind(|| TempoValue::new(n)).ok(), |x| x.value() as i64));
    }
    for n in 0..=255u8 {
        rec("strict", json!(["ending", n]), || of(std::panic::catch_unwind(|| -> VarIndex { n.into() }).ok(), |x| x.value() as i64));
    }
    for a in -2..=8i32 {
        for b in -2..=8i32 {
            rec("strict", json!(["octave", a + b]), || of(std::panic::catch_unwind(|| Octave::value_of(a).unwrap() + Octave::value_of(b).unwrap()).ok(), |x| x.value() as i64));
        }
    }
    let far = [i32::MIN, i32::MIN + 1, i32::MIN + 2, -65536, -256, 255, 256, 65536, i32::MAX - 2, i32::MAX - 1, i32::MAX];
    for kind in ["octave", "name"] {
        for n in (-40..40).chain(far) {
            rec("made", json!([kind, n]), || json!(made(kind, n as i64)));
        }
    }
    for kind in ["channel", "dots", "tuplet", "beats", "velocity", "tempo", "key"] {
        for n in (-300..1100i64).chain([-70000, -32769, -32768, 9999, 32767, 32768, 65535, 65536, 100000]) {
            rec("taken", json!([kind, n]), || taken(kind, &n.to_string()));
        }
    }
    rec("defaults", json!(0), || json!({
        "iter": PlayIter::default().iter(), "channel": Channel::default().as_u8(), "dots": Dots::default().value(),
        "tuplet": Denominator::default().value(), "length": Numerator::default().ord(), "velocity": Velocity::default().as_u8(),
        "tempo": TempoValue::default().value(), "key": Key::default().offset(),
    }));
    named();
    for n in 1..=4u8 {
        // an ending's mark says its number, alone and beside other marks
        rec("mark", json!(n), || {
            let v = VarIndex::from_value(n).unwrap();
            let s = RepeatSet::EMPTY.try_add(v.to_repeat()).ok().unwrap();
            let w = s.try_add(klavier_core::bar::Repeat::Coda).ok().unwrap();
            json!([
                of(s.region_index(), |x| x.value() as i64), of(w.region_index(), |x| x.value() as i64),
                of(s.remove_resions().region_index(), |x| x.value() as i64), of(RepeatSet::EMPTY.region_index(), |x| x.value() as i64),
                of(Some(s.remove_resions().len()), |x| x as i64), of(Some(w.remove_resions().len()), |x| x as i64),
            ])
        });
    }
    let mut r = Rng::new(seed);
    for k in 0..2000 {
        let span = if k % 2 == 0 { 6 } else { 30000 };
        let (a, b, v) = (r.range(-span, span), r.range(-span, span), r.range(-span - 2, span + 2));
        let (lo, hi) = (a.min(b), a.max(b));
        rec("clipped", json!([lo, hi, v]), || json!([
            clipper::for_i32(lo as i32, hi as i32).clip(v as i32) as i64,
            clipper::for_i16(lo as i16, hi as i16).clip(v as i16) as i64,
            clipper::for_f32(lo as f32, hi as f32).clip(v as f32) as i64,
        ]));
    }
    for _ in 0..300 {
        let s: Vec<String> = (0..r.range(1, 12)).map(|_| r.range(0, 4).to_string()).collect();
        rec("intern", json!(s.iter().map(|x| x.parse::<i64>().unwrap()).collect::<Vec<_>>()), || {
            let mut pool = FlyWeight::new();
            json!(s.iter().map(|x| {
                let got = pool.intern(x);
                s.iter().position(|y| std::ptr::eq(y, got)).map(|p| p as i64 + 1).unwrap_or(0)
            }).collect::<Vec<_>>())
        });
    }
}

pub fn scripts(path: &str, kind: &str, part: usize, parts: usize) {
    for s in crate::value::lines_of(path, part, parts) {
        let mut v = s[0].as_i64().unwrap();
        let mut obs = vec![];
        for op in s[1].as_array().unwrap() {
            let name = op[0].as_str().unwrap();
            let n = op[1].as_i64().unwrap_or(0);
            let step = || match kind {
                "iter" => {
                    let mut x = PlayIter::new(v as u8);
                    let done = x.set_iter(n as u8);
                    // a refused one must still be what it was
                    if done { Some(x.iter() as i64) } else if x == PlayIter::new(v as u8) { None } else { Some(-1) }
                }
                "ending" => {
                    let x = VarIndex::from_value(v as u8).ok().unwrap();
                    if name == "next" { x.next() } else { x.prev() }.ok().map(|y| y.value() as i64)
                }
                "octave" => {
                    let mut x = Octave::value_of(v as i32).ok().unwrap();
                    if name == "add" { x += n as i32 } else { x -= n as i32 };
                    Some(x.value() as i64)
                }
                _ => {
                    let mut x = Solfa::from_score_offset(v as i32);
                    if name == "add" { x += n as i32 } else { x -= n as i32 };
                    Some(x.score_offset() as i64)
                }
            };
            // these two have no other way to refuse than to panic
            let panics = kind == "octave" || kind == "name";
            let got = match guarded(json!({"op": "steps", "i": [kind, s], "p": ""}), step) {
                Ok(x) => of(x, |y| y),
                Err(_) if panics => json!({"k": "err", "v": 0}),
                Err(m) => json!({"k": m, "v": 0}),
            };
            if got["k"] == "ok" { v = got["v"].as_i64().unwrap(); }
            obs.push(got);
        }
        emit(&json!({"op": "steps", "i": {"kind": kind, "v": s[0], "ops": s[1]}, "o": obs, "p": ""}));
    }
}
