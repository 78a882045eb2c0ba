//! Renders tunes: the play order of bar lines with repeat marks, and the position maps made from it.
use crate::enc::*;
use crate::gen;
use crate::util::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use gcollections::ops::Bounded;
use klavier_core::global_repeat::RenderRegionWarning;
use klavier_core::play_start_tick::{PlayStartTick, ToAccumTickError};
use klavier_core::repeat::{render_region, Chunk, RenderRegionError};
use klavier_core::rhythm::Rhythm;
use serde_json::{json, Value};
use Repeat::*;

/// u32::MAX, "to the end of the tune", as seen by the specification, whose integers have 32 bits.
const END: i64 = 2_000_000_000;
/// Ticks that are too late for the specification are seen by it as earlier ones, in the same order.
#[derive(Clone, Copy)]
enum View {
    /// as they are
    Plain,
    /// those from the first number on are later by the second one
    Gap(u32, u32),
    /// multiplied and moved
    Scaled(u32, u32),
}
thread_local! { static VIEW: std::cell::Cell<View> = const { std::cell::Cell::new(View::Plain) }; }
/// Stands for a tick that is none of those the tune was made of.
const NOWHERE: i64 = -1_000_000_007;

impl View {
    fn real(self, t: u32) -> u32 {
        match self {
            _ if t == u32::MAX => t,
            View::Plain => t,
            View::Gap(at, by) => if t < at { t } else { t + by },
            View::Scaled(m, a) => t * m + a,
        }
    }
    fn seen(self, t: u32) -> i64 {
        match self {
            View::Plain => t as i64,
            View::Gap(at, by) => if t < at { t as i64 } else if t - at < by { NOWHERE } else { (t - by) as i64 },
            View::Scaled(m, a) => if t < a || (t - a) % m != 0 { NOWHERE } else { ((t - a) / m) as i64 },
        }
    }
    fn length(self, t: u32) -> i64 {
        match self {
            View::Scaled(m, _) => if t % m != 0 { NOWHERE } else { (t / m) as i64 },
            _ => t as i64,
        }
    }
    fn data(self) -> String {
        match self { View::Plain => String::new(), View::Gap(a, b) => format!("from {} on later by {}", a, b), View::Scaled(a, b) => format!("times {} and later by {}", a, b) }
    }
}
fn view() -> View { VIEW.with(|v| v.get()) }
fn seen_as<T>(v: View, f: impl FnOnce() -> T) -> T {
    let was = VIEW.with(|c| c.replace(v));
    let r = f();
    VIEW.with(|c| c.set(was));
    r
}

pub fn enc_tick(t: u32) -> i64 {
    if t > u32::MAX - 1000 { END - (u32::MAX as i64 - t as i64) } else { view().seen(t) }
}

pub struct Tune {
    pub rhythm: Rhythm,
    pub bars: Vec<Bar>,
}

fn rh(r: Rhythm) -> Vec<i64> {
    vec![r.numerator.value() as i64, r.denominator.value() as i64]
}

fn error(e: &RenderRegionError) -> Value {
    use RenderRegionError::*;
    let t = |x: &u32| enc_tick(*x);
    let (n, v): (&str, Vec<i64>) = match e {
        DuplicatedRepeatStart { tick } => ("DuplicatedRepeatStart", vec![t(tick)]),
        DuplicatedSegno { tick } => ("DuplicatedSegno", tick.iter().map(t).collect()),
        DuplicatedDsDc { tick } => ("DuplicatedDsDc", tick.iter().map(t).collect()),
        DuplicatedFine { tick } => ("DuplicatedFine", tick.iter().map(t).collect()),
        OrphanRepeatEnd { tick } => ("OrphanRepeatEnd", vec![t(tick)]),
        NoRepeatEnd { tick } => ("NoRepeatEnd", vec![t(tick)]),
        InvalidRegionIndex { tick, actual, expected } => ("InvalidRegionIndex", vec![t(tick), actual.value() as i64, expected.value() as i64]),
        RepeatInVariation { tick } => ("RepeatInVariation", vec![t(tick)]),
        VariationNotClosed { tick } => ("VariationNotClosed", vec![t(tick)]),
        NoSegnoForDs { ds_tick } => ("NoSegnoForDs", vec![t(ds_tick)]),
        MoreThanTwoCodas { tick } => ("MoreThanTwoCodas", tick.iter().map(t).collect()),
        OnlyOneCoda { tick } => ("OnlyOneCoda", vec![t(tick)]),
        DcDsWhileRepeat { tick } => ("DcDsWhileRepeat", vec![t(tick)]),
        DcDsWhileVariation { tick } => ("DcDsWhileVariation", vec![t(tick)]),
        SegnoWhildVariation { tick } => ("SegnoWhileVariation", vec![t(tick)]),
        CodaAfterFine { coda_from, coda_to, fine } => ("CodaAfterFine", vec![t(coda_from), t(coda_to), t(fine)]),
        other => return json!({"k": "err", "e": format!("{:?}", other), "t": [], "c": []}),
    };
    json!({"k": "err", "e": n, "t": v, "c": []})
}

fn warning(w: &RenderRegionWarning) -> Value {
    match w {
        RenderRegionWarning::SegnoAndDcFound { segno_tick, dc_tick } => json!(["SegnoAndDc", enc_tick(*segno_tick), enc_tick(*dc_tick)]),
        RenderRegionWarning::OrphanCodaFound { coda_tick } => json!(["OrphanCoda", enc_tick(*coda_tick), 0]),
    }
}

fn pairs(c: &[Chunk]) -> Vec<[i64; 2]> {
    c.iter().map(|c| [enc_tick(c.start_tick()), enc_tick(c.end_tick())]).collect()
}

pub fn render(t: &Tune) {
    let bars: Vec<Value> = t.bars.iter().map(|b| json!([b.start_tick, mark_list(b.repeats), b.rhythm.map(rh).unwrap_or_default()])).collect();
    let far: Vec<Bar> = t.bars.iter().map(|b| Bar { start_tick: view().real(b.start_tick), ..*b }).collect();
    let mut input = json!({"r": rh(t.rhythm), "b": bars});
    if !view().data().is_empty() { input["view"] = json!(view().data()); }
    rec("render", input, || match render_region(t.rhythm, far.iter()) {
        Ok((region, warnings)) => {
            let second: Vec<[i64; 2]> = region.to_iter1_interval_set().into_iter().map(|x| [enc_tick(x.lower()), enc_end(x.upper())]).collect();
            json!({"k": "ok", "e": "", "t": [], "c": pairs(&region.to_chunks()), "w": warnings.iter().map(warning).collect::<Vec<_>>(), "x": second})
        }
        Err(e) => error(e.current_context()),
    });
}

/// The tick after this one.
fn enc_end(t: u32) -> i64 { if t == u32::MAX { END + 1 } else { enc_tick(t + 1) } }

/// The tune, and perhaps the same one with its later bar lines much later: that is the same order of play.
/// The bar that ends at a D.C. and the first bar have to keep their lengths.
fn render_both(t: &Tune, r: &mut Rng) {
    render(t);
    if r.chance(12) && t.bars.len() > 2 {
        let k = r.range(2, t.bars.len() as i64 - 1) as usize;
        if !t.bars[k].repeats.contains(Dc) {
            let last = t.bars.last().unwrap().start_tick;
            let by = match r.below(4) { 0 => 65_536, 1 => 0x8000_0000 - last / 2, 2 => u32::MAX - 5000 - last, _ => r.range(1, 4_000_000_000) as u32 };
            seen_as(View::Gap(t.bars[k].start_tick, by), || render(t));
        }
    }
}

const RHYTHMS: [(u8, u8); 5] = [(4, 4), (3, 4), (2, 4), (6, 8), (5, 4)];

/// Bar line ticks: with and without pickup, with and without a bar line at 0, uniform and not.
fn tune(r: &mut Rng, sets: &[RepeatSet]) -> Tune {
    let (n, d) = RHYTHMS[if r.chance(60) { 0 } else { r.usize(5) }];
    let rhythm = if r.chance(8) { gen::rhythm(r) } else { Rhythm::new(n, d) };
    let (n, d) = (rhythm.numerator().value(), rhythm.denominator().value());
    let mut full = 960 * n as u32 / d as u32;
    let mut top = None;
    let at_zero = r.chance(25);
    if at_zero && r.chance(40) {
        let (n, d) = RHYTHMS[r.usize(5)];
        let rh = if r.chance(15) { gen::rhythm(r) } else { Rhythm::new(n, d) };
        top = Some(rh);
        full = 960 * rh.numerator().value() as u32 / rh.denominator().value() as u32;
    }
    let pickup = match r.below(10) {
        0..=3 => full,
        4..=5 => full / 4,
        6 => full / 2,
        7 => full * 3 / 4,
        8 => full * 2,
        _ => r.range(1, 2 * full as i64) as u32,
    };
    let uniform = r.chance(50);
    let mut at: u32 = 0;
    let mut bars = vec![];
    let mut first = true;
    for s in sets {
        if at_zero && bars.is_empty() {
            let key = if r.chance(40) { Some(gen::key(r)) } else { None };      // means nothing to the order of play
            bars.push(Bar::new(0, top, key, *s));
            continue;
        }
        let step = if first { first = false; pickup } else if uniform { full } else {
            match r.below(8) {
                0..=2 => full,
                3 => full.saturating_sub(pickup).max(1),
                4 => full / 2,
                5 => full + full / 4,
                6 => full - full / 4,
                _ => r.range(1, 2 * full as i64) as u32,
            }
        };
        at += step;
        let rhythm = if r.chance(4) { let (n, d) = RHYTHMS[r.usize(5)]; Some(Rhythm::new(n, d)) } else { None };
        let key = if r.chance(8) { Some(gen::key(r)) } else { None };
        bars.push(Bar::new(at, rhythm, key, *s));
    }
    Tune { rhythm, bars }
}

fn all_sets() -> Vec<RepeatSet> {
    let mut v = vec![];
    for bits in 0u32..(1 << 11) {
        let ms: Vec<Repeat> = (0..11).filter(|i| bits & (1 << i) != 0).map(|i| MARKS[i].0).collect();
        if ms.iter().enumerate().all(|(i, a)| ms[i + 1..].iter().all(|b| gen::compatible(*a, *b))) {
            v.push(mark_set(&ms));
        }
    }
    v
}

fn alphabet(name: &str) -> Vec<RepeatSet> {
    let s = |ms: &[Repeat]| mark_set(ms);
    match name {
        "sections" => vec![s(&[]), s(&[Start]), s(&[End]), s(&[Start, End]), s(&[Var1]), s(&[Var2]), s(&[Var3])],
        "endings" => vec![s(&[]), s(&[Start]), s(&[Var1]), s(&[Var2]), s(&[Var3]), s(&[Var4])],
        "singles" => MARKS.iter().map(|(m, _)| s(&[*m])).chain([s(&[])]).collect(),
        "global" => vec![
            s(&[]), s(&[Start]), s(&[End]), s(&[Var1]), s(&[Var2]), s(&[Dc]), s(&[Ds]), s(&[Segno]), s(&[Coda]), s(&[Fine]),
            s(&[Start, End]), s(&[End, Dc]), s(&[End, Ds]), s(&[Segno, Start]), s(&[Fine, End]), s(&[Coda, End]), s(&[Fine, Var1]),
        ],
        "all" => all_sets(),
        // marks that do not go together, too: such bar lines may come from a file
        "pairs" => {
            let mut v = vec![s(&[])];
            for i in 0..11 { for j in i..11 { v.push(s(&[MARKS[i].0, MARKS[j].0])); } }
            v
        }
        n => panic!("alphabet {}", n),
    }
}

/// All sequences of `len` bar lines over an alphabet; every `keep`-th of them.
pub fn enumerate(name: &str, len: u32, keep: u64, part: u64, parts: u64, seed: u64) {
    let a = alphabet(name);
    let total = (a.len() as u64).pow(len);
    for i in 0..total {
        if i % parts != part { continue; }
        let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(i));
        if keep > 1 && r.below(keep) != 0 { continue; }
        let mut x = i;
        let sets: Vec<RepeatSet> = (0..len).map(|_| { let s = a[(x % a.len() as u64) as usize]; x /= a.len() as u64; s }).collect();
        render_both(&tune(&mut r, &sets), &mut r);
    }
}

/// A random tune whose sections are in order most of the time.
fn composed(r: &mut Rng, with_global: bool) -> Vec<RepeatSet> {
    composed_marks(r, with_global).iter().map(|ms| mark_set(ms)).collect()
}

/// The same with a few changes, marks that do not go together included: bar lines may come from a file.
fn spoilt(r: &mut Rng) -> Vec<RepeatSet> {
    let g = r.chance(60);
    let mut v = composed_marks(r, g);
    for _ in 0..r.range(1, 3) {
        let i = r.usize(v.len());
        let m = MARKS[r.usize(11)].0;
        match r.below(8) {
            0..=3 => if !v[i].contains(&m) { v[i].push(m) },
            4 => { v[i].pop(); }
            5 => { v.remove(i); if v.is_empty() { v.push(vec![]); } }
            6 => v.insert(i, vec![m]),
            _ => { let j = r.usize(v.len()); v.swap(i, j); }
        }
    }
    v.iter().map(|ms| mark_set(ms)).collect()
}

fn composed_marks(r: &mut Rng, with_global: bool) -> Vec<Vec<Repeat>> {
    let mut v: Vec<Vec<Repeat>> = vec![];
    let plain = |v: &mut Vec<Vec<Repeat>>, r: &mut Rng| for _ in 0..r.below(3) { v.push(vec![]) };
    plain(&mut v, r);
    let mut implicit = r.chance(35);
    let mut closed = false;         // the last bar line ends the endings before it
    let sections = if r.chance(3) { r.range(4, 12) } else { r.range(0, 3) };
    for _ in 0..sections {
        if !implicit {
            // a bar line may close one section and open the next
            match v.last_mut() {
                Some(l) if (*l == vec![End] || closed) && r.chance(50) => l.push(Start),
                _ => v.push(vec![Start]),
            }
        }
        implicit = false;
        plain(&mut v, r);
        if r.chance(50) {
            v.push(vec![End]);
        } else {
            let n = r.range(1, 4);
            for k in 0..n {
                let m = [Var1, Var2, Var3, Var4][k as usize];
                for _ in 0..r.range(1, 2) { v.push(vec![m]); }
            }
            v.push(vec![]);
        }
        let n = v.len();
        plain(&mut v, r);
        closed = n == v.len() && v[n - 1].is_empty();
    }
    if v.is_empty() { v.push(vec![]); }
    let put = |v: &mut Vec<Vec<Repeat>>, m: Repeat, i: usize| {
        if v[i].iter().all(|x| *x != m && gen::compatible(*x, m)) { v[i].push(m); true } else { false }
    };
    if with_global {
        let n = v.len();
        let d = if r.chance(50) { Dc } else { Ds };
        for _ in 0..6 { let late = if r.chance(70) { 3 } else { n }; let i = n - 1 - r.usize(n.min(late)); if put(&mut v, d, i) { break; } }
        if d == Ds || r.chance(15) { for _ in 0..4 { if put(&mut v, Segno, r.usize(n)) { break; } } }
        if r.chance(50) { put(&mut v, Fine, r.usize(n)); }
        if r.chance(50) {
            for _ in 0..(if r.chance(90) { 2 } else { 1 }) { for _ in 0..4 { if put(&mut v, Coda, r.usize(n)) { break; } } }
        }
    }
    if !with_global && r.chance(25) {
        // without D.C. and D.S. these say nothing
        let n = v.len();
        if r.chance(60) { put(&mut v, Fine, r.usize(n)); }
        if r.chance(40) { put(&mut v, Segno, r.usize(n)); }
        for _ in 0..r.below(3) { put(&mut v, Coda, r.usize(n)); }
    }
    if r.chance(8) {
        // something goes wrong
        for _ in 0..r.range(1, 2) {
            let i = r.usize(v.len());
            match r.below(3) {
                0 => { v.remove(i); if v.is_empty() { v.push(vec![]); } }
                1 => { put(&mut v, MARKS[r.usize(11)].0, i); }
                _ => v.insert(i, vec![MARKS[r.usize(11)].0]),
            }
        }
    }
    v
}

pub fn random(seed: u64, n: u64, kind: &str) {
    let all = all_sets();
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(9_000_011).wrapping_add(i));
        let sets = match kind {
            "sections" => composed(&mut r, false),
            "global" => composed(&mut r, true),
            _ => match r.below(5) {
                3..=4 => spoilt(&mut r),
                0 => { let g = r.chance(50); composed(&mut r, g) }
                1 => (0..r.range(1, 8)).map(|_| if r.chance(50) { RepeatSet::EMPTY } else { *r.pick(&all) }).collect(),
                _ => (0..r.range(1, 6)).map(|_| gen::repeats(&mut r, 70)).collect(),
            },
        };
        render_both(&tune(&mut r, &sets), &mut r);
    }
}

// ---- position maps (P12) ----

fn map_record(chunks: &[Chunk], r: &mut Rng) {
    maps_of(chunks, r);
    if r.chance(12) {
        // the same order of play with everything later, or longer
        let most = chunks.iter().flat_map(|c| [c.start_tick(), c.end_tick()]).filter(|t| *t != u32::MAX).max().unwrap_or(0).max(5000);
        let sum: u32 = chunks.iter().filter(|c| c.end_tick() != u32::MAX).map(|c| c.end_tick() - c.start_tick()).sum::<u32>().max(1);
        let greatest = ((u32::MAX - 100_000) / (most + sum)).max(1);
        let m = if r.chance(50) { 1 } else { r.range(1, greatest as i64) as u32 };
        let a = r.range(0, (u32::MAX - 100_000 - most * m - sum * m) as i64) as u32;
        seen_as(View::Scaled(m, a), || maps_of(chunks, r));
    }
}

fn maps_of(chunks: &[Chunk], r: &mut Rng) {
    let queries: Vec<(u32, u8)> = (0..6)
        .map(|_| {
            let t = match r.below(4) {
                0 if !chunks.is_empty() => chunks[r.usize(chunks.len())].start_tick(),
                1 if !chunks.is_empty() => chunks[r.usize(chunks.len())].end_tick(),
                2 if !chunks.is_empty() => chunks[r.usize(chunks.len())].end_tick().saturating_sub(1),
                _ => r.below(1200) as u32,
            };
            (if t > 1_000_000_000 { 5000 } else { t }, r.range(1, 6) as u8)
        })
        .collect();
    let far: Vec<Chunk> = chunks.iter().map(|c| Chunk::new(view().real(c.start_tick()), view().real(c.end_tick()))).collect();
    let at = |cs: &[Chunk]| -> Value {
        let map = Chunk::by_accum_tick(cs);
        let slice: Vec<(u32, Chunk)> = map.iter().map(|(k, c)| (*k, *c)).collect();
        let qs: Vec<Value> = queries.iter().map(|(t, k)| match PlayStartTick::new(view().real(*t), *k).to_accum_tick(&slice) {
            Ok(a) => json!([t, k, "ok", view().length(a)]),
            Err(ToAccumTickError::CannotFind { specified_iter, max_iter }) => json!([t, k, if specified_iter.iter() == *k { "no" } else { "?" }, max_iter]),
        }).collect();
        json!({"m": slice.iter().map(|(k, c)| [view().length(*k), enc_tick(c.start_tick()), enc_tick(c.end_tick())]).collect::<Vec<_>>(), "q": qs})
    };
    let mut input = json!({"c": pairs(&far)});
    if !view().data().is_empty() { input["view"] = json!(view().data()); }
    rec("map", input, || {
        let o = Chunk::optimize(&far);
        json!({"o": pairs(&o), "raw": at(&far), "opt": at(&o)})
    });
}

/// All sequences of up to `len` chunks between a few ticks, and random longer ones, and those of rendered tunes.
pub fn maps(len: u32, part: u64, parts: u64, seed: u64, random: u64) {
    let ticks = [0u32, 100, 250, 400, u32::MAX];
    let mut all = vec![];
    for i in 0..5 { for j in i..5 { if i < 4 && (i != j || i == 1) { all.push(Chunk::new(ticks[i], ticks[j])); } } }
    let mut no = 0;
    for l in 0..=len {
        let total = (all.len() as u64).pow(l);
        for i in 0..total {
            let mut x = i;
            let cs: Vec<Chunk> = (0..l).map(|_| { let c = all[(x % all.len() as u64) as usize]; x /= all.len() as u64; c }).collect();
            // "to the end" is the last one
            if cs.iter().rev().skip(1).any(|c| c.end_tick() == u32::MAX) { continue; }
            no += 1;
            if no % parts != part { continue; }
            map_record(&cs, &mut Rng::new(seed.wrapping_mul(77).wrapping_add(no)));
        }
    }
    for i in 0..random {
        let mut r = Rng::new(seed.wrapping_mul(1_000_033).wrapping_add(part * 1_000_000_007 + i));
        let cs: Vec<Chunk> = if r.chance(50) {
            let g = r.chance(50);
            let sets = composed(&mut r, g);
            let t = tune(&mut r, &sets);
            match guarded(json!({"op": "skip", "p": ""}), || render_region(t.rhythm, t.bars.iter()).ok().map(|x| x.0.to_chunks())) {
                Ok(Some(c)) => c,
                _ => continue,
            }
        } else {
            let mut at = 0u32;
            let mut v = vec![];
            let most = if r.chance(4) { 120 } else { 12 };
            for _ in 0..r.range(1, most) {
                let s = if r.chance(40) { at } else { r.below(1000) as u32 };
                let least = if r.chance(10) { 0 } else { 1 };
                let e = s + r.range(least, 400) as u32;
                v.push(Chunk::new(s, e));
                at = e;
            }
            if r.chance(60) { v.push(Chunk::new(if r.chance(50) { at } else { r.below(1000) as u32 }, u32::MAX)); }
            v
        };
        // the end of the tune is in the middle only if the code under test has put it there
        if cs.iter().rev().skip(1).any(|c| c.end_tick() == u32::MAX) { continue; }
        map_record(&cs, &mut r);
    }
}

// ---- repeat marks on a bar line (P13) ----

pub fn mark_sets() {
    for s in all_sets() {
        let have = mark_list(s);
        for (m, name) in MARKS {
            rec("try_add", json!({"s": have, "m": name}), || match s.try_add(m) {
                Ok(n) => json!({"k": "ok", "s": mark_list(n), "n": n.len()}),
                Err(e) => json!({"k": "err", "s": MARKS.iter().filter(|(x, _)| e.contains(*x)).map(|(_, n)| *n).collect::<Vec<_>>(), "n": s.len()}),
            });
            rec("remove", json!({"s": have, "m": name}), || { let n = s.remove(m); json!({"k": "ok", "s": mark_list(n), "n": n.len()}) });
        }
        rec("remove_endings", json!({"s": have, "m": ""}), || { let n = s.remove_resions(); json!({"k": "ok", "s": mark_list(n), "n": n.len()}) });
        rec("ending", json!({"s": have, "m": ""}), || json!({"k": "ok", "s": [], "n": s.region_index().map(|i| i.value()).unwrap_or(0)}));
    }
}

/// Behaviours of the specification: each line is a sequence of [add?, mark]
pub fn mark_scripts(file: &str, part: usize, parts: usize) {
    let text = std::fs::read_to_string(file).unwrap();
    for (i, line) in text.lines().enumerate() {
        if i % parts != part { continue; }
        let v: Value = serde_json::from_str(line).unwrap();
        let mut s = RepeatSet::EMPTY;
        let mut steps: Vec<Value> = vec![];
        let ops = v[1].as_array().unwrap().clone();
        let input = json!({"ops": ops});
        rec("marks", input, || {
            for o in &ops {
                let m = MARKS.iter().find(|x| x.1 == o[1].as_str().unwrap()).unwrap().0;
                let mut bad: Vec<&str> = vec![];
                if o[0].as_str().unwrap() == "add" {
                    match s.try_add(m) {
                        Ok(n) => s = n,
                        Err(e) => bad = MARKS.iter().filter(|(x, _)| e.contains(*x)).map(|(_, n)| *n).collect(),
                    }
                } else {
                    s = s.remove(m);
                }
                steps.push(json!([mark_list(s), bad]));
            }
            json!(steps)
        });
    }
}

/// Tunes of the specification: each line is [rhythm, [[tick, marks]…]]; its beginnings are tunes as well.
pub fn tune_scripts(file: &str, part: usize, parts: usize) {
    let text = std::fs::read_to_string(file).unwrap();
    for (i, line) in text.lines().enumerate() {
        if i % parts != part || line.is_empty() { continue; }
        let v: Value = serde_json::from_str(line).unwrap();
        let num = |v: &Value| v.as_u64().unwrap();
        let rhythm = Rhythm::new(num(&v[0][0]) as u8, num(&v[0][1]) as u8);
        let bars: Vec<Bar> = v[1].as_array().unwrap().iter().map(|b| {
            let ms: Vec<Repeat> = b[1].as_array().unwrap().iter().map(|m| MARKS.iter().find(|x| x.1 == m.as_str().unwrap()).unwrap().0).collect();
            Bar::new(num(&b[0]) as u32, None, None, mark_set(&ms))
        }).collect();
        render(&Tune { rhythm, bars });
    }
}

/// Play orders of the specification: each line is [0, [[from, to]…]], in units of 100 ticks
pub fn map_scripts(file: &str, part: usize, parts: usize) {
    let text = std::fs::read_to_string(file).unwrap();
    for (i, line) in text.lines().enumerate() {
        if i % parts != part || line.is_empty() { continue; }
        let v: Value = serde_json::from_str(line).unwrap();
        let cs: Vec<Chunk> = v[1].as_array().unwrap().iter()
            .map(|c| Chunk::new(c[0].as_u64().unwrap() as u32 * 100, c[1].as_u64().unwrap() as u32 * 100)).collect();
        map_record(&cs, &mut Rng::new(i as u64));
    }
}
