//! Encoding of the values of the code under test as JSON.
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use serde_json::{json, Value};

pub const MARKS: [(Repeat, &str); 11] = [
    (Repeat::Start, "S"),
    (Repeat::End, "E"),
    (Repeat::Dc, "C"),
    (Repeat::Fine, "F"),
    (Repeat::Ds, "D"),
    (Repeat::Segno, "G"),
    (Repeat::Coda, "O"),
    (Repeat::Var1, "1"),
    (Repeat::Var2, "2"),
    (Repeat::Var3, "3"),
    (Repeat::Var4, "4"),
];

pub fn marks(r: RepeatSet) -> String {
    MARKS.iter().filter(|(m, _)| r.contains(*m)).map(|(_, s)| *s).collect()
}

/// Built from the serialized form, so that it does not depend on the compatibility check.
pub fn mark_set(ms: &[Repeat]) -> RepeatSet {
    let bits: u32 = MARKS.iter().enumerate().map(|(_, (m, _))| if ms.contains(m) { 1u32 << (*m as u32) } else { 0 }).sum();
    serde_json::from_value(json!({ "value": bits })).expect("repeat set")
}

pub fn mark_list(r: RepeatSet) -> Vec<&'static str> {
    MARKS.iter().filter(|(m, _)| r.contains(*m)).map(|(_, s)| *s).collect()
}

pub fn sf(s: SharpFlat) -> &'static str {
    match s {
        SharpFlat::Sharp => "#",
        SharpFlat::DoubleSharp => "##",
        SharpFlat::Flat => "b",
        SharpFlat::DoubleFlat => "bb",
        SharpFlat::Natural => "n",
        SharpFlat::Null => "",
    }
}

pub fn trim(t: &Trimmer) -> Vec<i32> {
    (0..4).map(|i| t.value(i)).collect()
}

pub fn rate(t: &RateTrimmer) -> Vec<i64> {
    (0..4).map(|i| (t.value(i).to_f32() as f64 * 1000.0).round() as i64).collect()
}

pub fn note_id(n: &Note) -> String {
    format!(
        "{}|{:?}{:?}{}|{}/{}/{}|{}{}|{}|{:?}|{:?}|{:?}|{}",
        n.base_start_tick,
        n.pitch.solfa(),
        n.pitch.octave(),
        sf(n.pitch.sharp_flat()),
        n.duration.numerator.ord(),
        n.duration.denominator.value(),
        n.duration.dots.value(),
        n.tie as u8,
        n.tied as u8,
        n.base_velocity.as_u8(),
        trim(&n.start_tick_trimmer),
        rate(&n.duration_trimmer),
        trim(&n.velocity_trimmer),
        n.channel.as_u8()
    )
}

/// i: everything about the note, s: the tick it sounds at, e: where it ends
pub fn note(n: &Note) -> Value {
    json!({"i": note_id(n), "s": n.start_tick(), "e": n.start_tick() as u64 + n.tick_len() as u64})
}

pub fn bar(b: &Bar) -> Value {
    json!({
        "t": b.start_tick,
        "r": b.rhythm.map(|r| vec![r.numerator.value() as i64, r.denominator.value() as i64]).unwrap_or_default(),
        "k": b.key.map(|k| vec![k.offset() as i64]).unwrap_or_default(),
        "m": marks(b.repeats),
    })
}

pub fn tempo(t: &Tempo) -> Value {
    json!({"t": t.start_tick, "v": t.value.as_u16()})
}

pub fn ctrl(c: &CtrlChg) -> Value {
    json!({"t": c.start_tick, "v": c.velocity.as_u8(), "c": c.channel.as_u8()})
}

pub fn models(m: &Models) -> Value {
    json!({
        "n": m.notes.iter().map(note).collect::<Vec<_>>(),
        "b": m.bars.iter().map(bar).collect::<Vec<_>>(),
        "t": m.tempos.iter().map(tempo).collect::<Vec<_>>(),
        "d": m.dumpers.iter().map(ctrl).collect::<Vec<_>>(),
        "f": m.softs.iter().map(ctrl).collect::<Vec<_>>(),
    })
}
