//! Random values of the code under test, built through its public API only.
use crate::enc::{mark_set, MARKS};
use crate::util::Rng;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::key::Key;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;

pub const SHARP_FLATS: [SharpFlat; 6] = [
    SharpFlat::Null,
    SharpFlat::Sharp,
    SharpFlat::Flat,
    SharpFlat::Natural,
    SharpFlat::DoubleSharp,
    SharpFlat::DoubleFlat,
];

pub fn pitch(r: &mut Rng) -> Pitch {
    loop {
        let so = *r.pick(Solfa::ALL);
        let oc = *r.pick(Octave::ALL);
        let sf = if r.chance(60) { SharpFlat::Null } else { *r.pick(&SHARP_FLATS) };
        // Combinations outside of the MIDI range are left out (computed here, not by the code under test).
        let v = [0, 2, 4, 5, 7, 9, 11][Solfa::ALL.iter().position(|s| *s == so).unwrap()]
            + 12 * Octave::ALL.iter().position(|o| *o == oc).unwrap() as i32
            + match sf {
                SharpFlat::Sharp => 1,
                SharpFlat::DoubleSharp => 2,
                SharpFlat::Flat => -1,
                SharpFlat::DoubleFlat => -2,
                _ => 0,
            };
        if (0..=127).contains(&v) {
            return Pitch::new(so, oc, sf);
        }
    }
}

pub fn duration(r: &mut Rng) -> Duration {
    let num = Numerator::from_ord(match r.below(10) {
        0 => 0,
        1 => 1,
        2..=4 => 2,
        5..=6 => 3,
        _ => r.below(8) as u8,
    })
    .unwrap();
    let den = if r.chance(75) { 2 } else if r.chance(70) { r.range(3, 9) as u8 } else { r.range(2, 255) as u8 };
    let dots = if r.chance(70) { 0 } else { r.below(8) as u8 };
    Duration::new(num, Denominator::from_value(den).unwrap(), Dots::from_value(dots).unwrap())
}

pub fn trimmer(r: &mut Rng) -> Trimmer {
    match r.below(10) {
        0..=5 => Trimmer::ZERO,
        6..=8 => Trimmer::new(r.range(-100, 100) as i16, r.range(-50, 50) as i16, 0, r.range(-9, 9) as i16),
        _ => {
            let mut v = [0i16; 4];
            for x in v.iter_mut() {
                *x = r.range(-300, 300) as i16;
            }
            if r.chance(15) {
                v[r.usize(4)] = *r.pick(&[i16::MIN, i16::MAX, 5000, -5000]);
            }
            Trimmer::new(v[0], v[1], v[2], v[3])
        }
    }
}

pub fn rates(r: &mut Rng) -> RateTrimmer {
    match r.below(10) {
        0..=5 => RateTrimmer::ONE,
        6 => RateTrimmer::new(2.0, 1.0, 1.0, 1.0),
        _ => {
            let mut v = [PercentU16::HUNDRED; 4];
            for x in v.iter_mut() {
                if r.chance(60) {
                    *x = PercentU16::from_value(r.range(0, 2000) as u16);
                }
            }
            RateTrimmer::from_array(v)
        }
    }
}

pub fn note(r: &mut Rng, tick: u32) -> Note {
    Note {
        base_start_tick: tick,
        pitch: pitch(r),
        duration: if r.chance(15) {
            // the longest ones
            Duration::new(Numerator::Whole, Denominator::from_value(2).unwrap(), Dots::from_value(r.below(8) as u8).unwrap())
        } else {
            duration(r)
        },
        tie: r.chance(20),
        tied: r.chance(20),
        base_velocity: Velocity::new(r.below(128) as u8),
        start_tick_trimmer: trimmer(r),
        duration_trimmer: rates(r),
        velocity_trimmer: trimmer(r),
        channel: Channel::new(r.below(16) as u8),
    }
}

pub fn rhythm(r: &mut Rng) -> Rhythm {
    match r.below(12) {
        0..=2 => Rhythm::new(4, 4),
        3..=4 => Rhythm::new(3, 4),
        5 => Rhythm::new(6, 8),
        6 => Rhythm::new(2, 4),
        7 => Rhythm::new(5, 4),
        8 => Rhythm::new(7, 8),
        9 => Rhythm::new(3, 2),
        10 if r.chance(70) => Rhythm::new(r.range(9, 99) as u8, *r.pick(&[2u8, 4, 8, 16, 32, 64])),
        10 => Rhythm::new(r.range(1, 30) as u8, *r.pick(&[16u8, 32, 64])),
        _ => Rhythm::new(r.range(2, 12) as u8, *r.pick(&[2u8, 4, 8])),
    }
}

pub fn key(r: &mut Rng) -> Key {
    *r.pick(&Key::ALL)
}

/// Compatible marks (as the specification has it, whatever the code under test thinks of them).
pub fn repeats(r: &mut Rng, density: u64) -> RepeatSet {
    let mut have: Vec<Repeat> = vec![];
    if r.chance(density) {
        for _ in 0..r.range(1, 3) {
            let m = MARKS[r.usize(11)].0;
            if have.iter().all(|h| *h != m && compatible(*h, m)) {
                have.push(m);
            }
        }
    }
    mark_set(&have)
}

pub fn compatible(a: Repeat, b: Repeat) -> bool {
    use Repeat::*;
    let var = |x| matches!(x, Var1 | Var2 | Var3 | Var4);
    let bad = |x, y| {
        (var(x) && (var(y) || matches!(y, Start | End | Dc | Ds | Segno)))
            || (x == Start && matches!(y, Dc | Ds))
            || (x == Dc && matches!(y, Ds | Segno))
    };
    !bad(a, b) && !bad(b, a)
}

pub fn bar(r: &mut Rng, tick: u32) -> Bar {
    Bar::new(
        tick,
        if r.chance(25) { Some(rhythm(r)) } else { None },
        if r.chance(25) { Some(key(r)) } else { None },
        repeats(r, 25),
    )
}

pub fn tempo(r: &mut Rng, tick: u32) -> Tempo {
    Tempo::new(tick, r.range(1, 999) as u16)
}

pub fn ctrl(r: &mut Rng, tick: u32) -> CtrlChg {
    CtrlChg::new(tick, Velocity::new(r.below(128) as u8), Channel::new(r.below(16) as u8))
}
