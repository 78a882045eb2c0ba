//! Drives project stores through histories of edits, undos, redos and reopenings, and records
//! what is observable after every operation.
use crate::enc;
use crate::gen;
use crate::util::*;
use klavier_core::bar::{Bar, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::models::{ModelChanges, Models};
use klavier_core::note::Note;
use klavier_core::pitch::Pitch;
use klavier_core::project::*;
use klavier_core::rhythm::Rhythm;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::tuple;
use klavier_core::velocity::Velocity;
use klavier_helper::bag_store::{BagStore, BagStoreEvent};
use klavier_helper::store::{Store, StoreEvent};
use serde_json::{json, Value};
use serdo::cmd::Cmd;
use serdo::undo_store::{Options, UndoStore};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration as StdDuration, Instant};

pub struct Profile {
    pub undo: u64,
    pub redo: u64,
    pub reopen: u64,
    pub queries: usize,
    pub loc_queries: usize,
    pub events: bool,
    pub small_limit: u64,
    pub steps: (i64, i64),
    pub max_tick: i64,
    /// the same operations, reopenings left out, on a second store
    pub twin: bool,
    /// how often a long note is added whose end is the last one, in percent
    pub tail: u64,
    /// more items than this are thinned out
    pub most: usize,
    /// as many times as usual in one bulk addition
    pub bulk: u64,
}

pub fn profile(name: &str) -> Profile {
    let p = Profile {
        undo: 12, redo: 8, reopen: 3, queries: 0, loc_queries: 0, events: false, small_limit: 25,
        steps: (10, 45), max_tick: 9000, twin: false, tail: 1, most: 45, bulk: 1,
    };
    match name {
        "undo" => Profile { undo: 28, redo: 5, reopen: 2, ..p },
        "redo" => Profile { undo: 22, redo: 22, reopen: 2, ..p },
        "reopen" => Profile { undo: 16, redo: 8, reopen: 22, small_limit: 50, twin: true, ..p },
        "edit" => Profile { undo: 6, redo: 4, reopen: 1, small_limit: 5, ..p },
        "bars" => Profile { undo: 4, redo: 2, reopen: 1, small_limit: 5, max_tick: 16000, steps: (5, 25), tail: 12, ..p },
        "inforce" => Profile { undo: 8, redo: 4, reopen: 2, queries: 8, ..p },
        "location" => Profile { undo: 8, redo: 4, reopen: 2, loc_queries: 6, ..p },
        "events" => Profile { undo: 14, redo: 10, reopen: 2, events: true, ..p },
        _ => p,
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    AddNote(Note, bool),
    AddBar(Bar, bool),
    AddTempo(Tempo, bool),
    AddDumper(CtrlChg, bool),
    AddSoft(CtrlChg, bool),
    Tuplize(Vec<Rc<Note>>),
    BulkAdd(Models, ModelChangeMetadata),
    BulkRemove(Models, ModelChangeMetadata),
    Change(Vec<(Note, Note)>, Vec<(Bar, Bar)>, Vec<(Tempo, Tempo)>, Vec<(CtrlChg, CtrlChg)>, Vec<(CtrlChg, CtrlChg)>, ModelChangeMetadata),
    SetRhythm(Rhythm),
    SetKey(Key),
    SetGrid(Grid),
    Undo,
    Redo,
    Reopen,
}

static POLL_MS: AtomicU64 = AtomicU64::new(20000);

fn wait_saved(s: &mut ProjectStore) {
    let t = Instant::now();
    loop {
        if s.saved().unwrap_or(false) {
            return;
        }
        if t.elapsed() > StdDuration::from_millis(POLL_MS.load(Ordering::Relaxed)) {
            POLL_MS.store(60, Ordering::Relaxed);
            return;
        }
        std::thread::sleep(StdDuration::from_micros(20));
    }
}

fn obs_store<T: Clone>(s: &Store<u32, T, ModelChangeMetadata>, f: impl Fn(&T) -> Value, key: impl Fn(&T) -> u32, ok: &mut bool) -> Vec<Value> {
    let mut prev: Option<u32> = None;
    s.iter()
        .map(|(k, v)| {
            if *k != key(v) || prev.is_some_and(|p| *k <= p) {
                *ok = false;
            }
            prev = Some(*k);
            f(v)
        })
        .collect()
}

pub fn observe(m: &ProjectImpl) -> Value {
    look(m.note_repo(), m.bar_repo(), m.tempo_repo(), m.dumper_repo(), m.soft_repo(), m.rhythm(), m.key(), m.grid())
}

fn shown(m: &ProjectStore) -> Value {
    look(m.note_repo(), m.bar_repo(), m.tempo_repo(), m.dumper_repo(), m.soft_repo(), m.rhythm(), m.key(), m.grid())
}

type Keyed<T> = Store<u32, T, ModelChangeMetadata>;

fn look(note_repo: &BagStore<u32, Rc<Note>, ModelChangeMetadata>, bars: &Keyed<Bar>, tempos: &Keyed<Tempo>, dumpers: &Keyed<CtrlChg>, softs: &Keyed<CtrlChg>,
    rhythm: Rhythm, key: Key, grid: Grid) -> Value {
    let mut ok = true;
    let mut notes = vec![];
    let mut prev = 0;
    for (k, n) in note_repo.iter() {
        if *k != n.start_tick() || *k < prev {
            ok = false;
        }
        prev = *k;
        notes.push(enc::note(n));
    }
    if notes.len() != note_repo.len() {
        ok = false;
    }
    // the order of notes that begin together is not observable behaviour
    notes.sort_by(|x, y| (x["s"].as_u64(), x["i"].as_str()).cmp(&(y["s"].as_u64(), y["i"].as_str())));
    let b = obs_store(bars, enc::bar, |b| b.start_tick, &mut ok);
    let t = obs_store(tempos, enc::tempo, |b| b.start_tick, &mut ok);
    let d = obs_store(dumpers, enc::ctrl, |b| b.start_tick, &mut ok);
    let f = obs_store(softs, enc::ctrl, |b| b.start_tick, &mut ok);
    json!({"n": notes, "b": b, "t": t, "d": d, "f": f, "w": ok,
        "r": [rhythm.numerator.value(), rhythm.denominator.value()],
        "k": key.offset(), "g": grid.as_u32()})
}

fn sel_code(m: &ModelChangeMetadata) -> u8 {
    (match m.need_select { None => 0, Some(true) => 1, Some(false) => 2 }) + if m.dragged { 10 } else { 0 }
}

fn ev_store<T: Clone>(evs: &[StoreEvent<u32, T, ModelChangeMetadata>], f: impl Fn(&T) -> Value) -> Vec<Value> {
    evs.iter()
        .map(|e| match e {
            StoreEvent::Added { added, metadata } => json!({"r": [], "a": [f(added)], "s": sel_code(metadata), "c": false}),
            StoreEvent::Removed(x) => json!({"r": [f(x)], "a": [], "s": 0, "c": false}),
            StoreEvent::ClearedAll => json!({"r": [], "a": [], "s": 0, "c": true}),
            StoreEvent::BulkAddedRemoved { added, removed, metadata } => json!({
                "r": removed.iter().map(|x| f(&x.1)).collect::<Vec<_>>(),
                "a": added.iter().map(|x| f(&x.1)).collect::<Vec<_>>(), "s": sel_code(metadata), "c": false}),
            StoreEvent::Changed { from_to, removed: _, metadata } => json!({
                "r": from_to.iter().map(|x| f(&x.0.1)).collect::<Vec<_>>(),
                "a": from_to.iter().map(|x| f(&x.1.1)).collect::<Vec<_>>(), "s": sel_code(metadata), "c": false}),
        })
        .collect()
}

fn ev_notes(evs: &[BagStoreEvent<u32, Rc<Note>, ModelChangeMetadata>]) -> Vec<Value> {
    let f = |n: &Rc<Note>| enc::note(n);
    evs.iter()
        .map(|e| match e {
            BagStoreEvent::Added { added, metadata } => json!({"r": [], "a": [f(added)], "s": sel_code(metadata), "c": false}),
            BagStoreEvent::AddedVec { added, metadata } => json!({"r": [], "a": added.iter().map(f).collect::<Vec<_>>(), "s": sel_code(metadata), "c": false}),
            BagStoreEvent::Removed(x) => json!({"r": [f(x)], "a": [], "s": 0, "c": false}),
            BagStoreEvent::RemovedVec(x) => json!({"r": x.iter().map(f).collect::<Vec<_>>(), "a": [], "s": 0, "c": false}),
            BagStoreEvent::ClearedAll => json!({"r": [], "a": [], "s": 0, "c": true}),
            BagStoreEvent::BulkAddedRemoved { added, removed, metadata } => json!({
                "r": removed.iter().map(|x| f(&x.1)).collect::<Vec<_>>(),
                "a": added.iter().map(|x| f(&x.1)).collect::<Vec<_>>(), "s": sel_code(metadata), "c": false}),
            BagStoreEvent::Changed { from_to, removed: _, metadata } => json!({
                "r": from_to.iter().map(|x| f(&x.0.1)).collect::<Vec<_>>(),
                "a": from_to.iter().map(|x| f(&x.1.1)).collect::<Vec<_>>(), "s": sel_code(metadata), "c": false}),
        })
        .collect()
}

/// What a project has announced so far.
fn heard(m: &ProjectImpl) -> Value {
    json!({"n": ev_notes(m.note_repo().events()), "b": ev_store(m.bar_repo().events(), enc::bar),
        "t": ev_store(m.tempo_repo().events(), enc::tempo), "d": ev_store(m.dumper_repo().events(), enc::ctrl),
        "f": ev_store(m.soft_repo().events(), enc::ctrl)})
}

fn no_items() -> Value {
    json!({"n": [], "b": [], "t": [], "d": [], "f": []})
}

fn pairs_models<'a>(o: &'a Op) -> (Models, Models) {
    let mut a = Models::empty();
    let mut r = Models::empty();
    if let Op::Change(n, b, t, d, f, _) = o {
        for (x, y) in n { r.notes.push(x.clone()); a.notes.push(y.clone()); }
        for (x, y) in b { r.bars.push(*x); a.bars.push(*y); }
        for (x, y) in t { r.tempos.push(*x); a.tempos.push(*y); }
        for (x, y) in d { r.dumpers.push(*x); a.dumpers.push(*y); }
        for (x, y) in f { r.softs.push(*x); a.softs.push(*y); }
    }
    (a, r)
}

/// The operation as data: its name, the items it adds and removes, the value it sets, the selection request.
fn describe(o: &Op) -> Value {
    let e = no_items();
    let mk = |op: &str, a: Value, r: Value, v: Value, s: u8| json!({"op": op, "a": a, "r": r, "v": v, "s": s, "p": ""});
    let sel = |b: bool| if b { 1 } else { 0 };
    match o {
        Op::AddNote(n, s) => { let mut m = Models::empty(); m.notes.push(n.clone()); mk("add", enc::models(&m), e, json!([]), sel(*s)) }
        Op::AddBar(b, s) => { let mut m = Models::empty(); m.bars.push(*b); mk("addbar", enc::models(&m), e, json!([]), sel(*s)) }
        Op::AddTempo(t, s) => { let mut m = Models::empty(); m.tempos.push(*t); mk("add", enc::models(&m), e, json!([]), sel(*s)) }
        Op::AddDumper(t, s) => { let mut m = Models::empty(); m.dumpers.push(*t); mk("add", enc::models(&m), e, json!([]), sel(*s)) }
        Op::AddSoft(t, s) => { let mut m = Models::empty(); m.softs.push(*t); mk("add", enc::models(&m), e, json!([]), sel(*s)) }
        Op::Tuplize(n) => {
            // What the tuplet should look like is decided elsewhere (P14); here only that exactly this replaces the notes.
            let a = if n.len() > 1 { tuple::tuplize(n.clone()) } else { vec![] };
            mk(if n.len() > 1 { "tuplize" } else { "noop" }, enc::models(&Models::empty().with_notes(&a)),
               enc::models(&Models::empty().with_notes(if n.len() > 1 { n } else { &[] })), json!([]), 1)
        }
        Op::BulkAdd(m, md) => mk("bulk_add", enc::models(m), e, json!([]), sel_code(md)),
        Op::BulkRemove(m, md) => mk("bulk_remove", e, enc::models(m), json!([]), sel_code(md)),
        Op::Change(.., md) => { let (a, r) = pairs_models(o); mk("change", enc::models(&a), enc::models(&r), json!([]), sel_code(md)) }
        Op::SetRhythm(r) => mk("set_rhythm", e.clone(), e, json!([r.numerator.value(), r.denominator.value()]), 0),
        Op::SetKey(k) => mk("set_key", e.clone(), e, json!([k.offset()]), 0),
        Op::SetGrid(g) => mk("set_grid", e.clone(), e, json!([g.as_u32()]), 0),
        Op::Undo => mk("undo", e.clone(), e, json!([]), 0),
        Op::Redo => mk("redo", e.clone(), e, json!([]), 0),
        Op::Reopen => mk("reopen", e.clone(), e, json!([]), 0),
    }
}

fn apply(store: &mut ProjectStore, o: Op) {
    let mut posted = true;
    match o {
        Op::AddNote(n, s) => store.add_note(n, s),
        Op::AddBar(n, s) => store.add_bar(n, s),
        Op::AddTempo(n, s) => store.add_tempo(n, s),
        Op::AddDumper(n, s) => store.add_dumper(n, s),
        Op::AddSoft(n, s) => store.add_soft(n, s),
        Op::Tuplize(n) => { posted = n.len() > 1; store.tuplize(n) }
        Op::BulkAdd(m, md) => store.bulk_add(m, md),
        Op::BulkRemove(m, md) => store.bulk_remove(m, md),
        Op::Change(n, b, t, d, f, md) => store.change(
            // however it is put together
            match (n.len() + 2 * b.len() + t.len() + d.len() + f.len()) % 3 {
                0 => ModelChanges { notes: n, bars: b, tempos: t, dumpers: d, softs: f },
                1 => ModelChanges::empty().with_notes(n).with_bars(b).with_tempos(t).with_dumpers(d).with_softs(f),
                _ => ModelChanges::with_capacity(n.len(), b.len(), t.len(), d.len(), f.len()).with_softs(f).with_dumpers(d).with_tempos(t).with_bars(b).with_notes(n),
            }, md),
        Op::SetRhythm(r) => store.set_rhythm(r),
        Op::SetKey(k) => store.set_key(k),
        Op::SetGrid(g) => store.set_grid(g),
        Op::Undo => { store.undo(); posted = false }
        Op::Redo => { store.redo(); posted = false }
        Op::Reopen => posted = false,
    }
    if posted { wait_saved(store); }
}

pub struct Session {
    dir: std::path::PathBuf,
    store: Option<ProjectStore>,
    limit: usize,
    with_events: bool,
    twin: Option<ProjectStore>,
    /// operations since the notifications were cleared
    since: i64,
    turn: u64,
    undone: bool,
    /// everything is on the disk
    firm: bool,
    pub dead: bool,
}

impl Session {
    pub fn open(base: &std::path::Path, no: u64, limit: usize, p: &Profile) -> Option<Session> {
        let dir = base.join(format!("t{}", no));
        let _ = std::fs::remove_dir_all(&dir);
        let mut v = json!({"op": "open", "a": no_items(), "r": no_items(), "v": [limit], "s": 0, "p": ""});
        let d = dir.clone();
        match guarded(v.clone(), move || ProjectStore::open(&d, Options::new().with_undo_limit(limit)).map_err(|e| format!("{:?}", e))) {
            Ok(Ok(mut s)) => {
                s.clear_model_events();
                v["o"] = observe(s.model());
                v["cu"] = json!(s.can_undo());
                v["cr"] = json!(s.can_redo());
                let mut twin = None;
                if p.twin {
                    let td = base.join(format!("t{}twin", no));
                    let _ = std::fs::remove_dir_all(&td);
                    twin = guarded(v.clone(), move || ProjectStore::open(&td, Options::new().with_undo_limit(limit)).ok()).ok().flatten();
                }
                emit(&v);
                Some(Session { dir, store: Some(s), limit, with_events: p.events, twin, since: -1, turn: no, undone: false, firm: true, dead: false })
            }
            Ok(Err(m)) | Err(m) => { v["p"] = json!(m); emit(&v); None }
        }
    }

    pub fn store(&self) -> &ProjectStore {
        self.store.as_ref().unwrap()
    }

    pub fn step(&mut self, o: Op, q: &mut dyn FnMut(&ProjectStore) -> Vec<(&'static str, Value)>) {
        if self.dead { return; }
        let mut v = match guarded(json!({"op": "describe", "p": ""}), || describe(&o)) {
            Ok(v) => v,
            Err(_) => { self.dead = true; return }   // tuplize panicked: P14's business
        };
        if let Some(mut t) = self.twin.take() {
            let o2 = o.clone();
            // what goes wrong here is for the check of that operation; this is only about reopening
            if let Ok(t) = guarded(json!({"op": "twin", "p": ""}), move || { apply(&mut t, o2); t }) {
                v["w"] = json!({"o": observe(t.model()), "cu": t.can_undo(), "cr": t.can_redo()});
                self.twin = Some(t);
            }
        }
        // a listener may hear of several operations at once
        self.turn = self.turn.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let hold = self.with_events && self.since < 6 && (self.turn >> 40) % 100 < 40 && !matches!(o, Op::Reopen);
        self.since = if let Op::Reopen = o { -1 } else if hold { self.since + 1 } else { 0 };
        let mut store = self.store.take().unwrap();
        let limit = self.limit;
        let old = self.dir.clone();
        let firm = self.firm;
        // the store reports that an edit made after an undo is saved before it is; undo and redo wait for it
        match o {
            Op::Reopen => { self.undone = false; self.firm = true }
            Op::Undo => if store.can_undo() { self.undone = true; self.firm = true },
            Op::Redo => if store.can_redo() { self.firm = true },
            _ => self.firm = !self.undone,
        }
        // sometimes what is on the disk is opened as it is, as after a crash or from a saved copy
        if matches!(o, Op::Reopen) && firm && (self.turn >> 20) % 100 < 30 {
            self.dir = old.with_file_name(format!("{}c", old.file_name().unwrap().to_string_lossy()));
            std::fs::create_dir_all(&self.dir).expect("scratch directory");
            std::fs::copy(old.join("db.sqlite"), self.dir.join("db.sqlite")).expect("copy of the store");
            v["v"] = json!(["copy"]);
        }
        let dir = self.dir.clone();
        let r = guarded(v.clone(), move || {
            if !hold { store.clear_model_events(); }
            if let Op::Reopen = o {
                drop(store);
                if old != dir { let _ = std::fs::remove_dir_all(&old); }
                store = ProjectStore::open(&dir, Options::new().with_undo_limit(limit)).map_err(|e| format!("open: {:?}", e))?;
                store.clear_model_events();
            } else {
                apply(&mut store, o);
            }
            Ok::<ProjectStore, String>(store)
        });
        match r {
            Ok(Ok(s)) => {
                let seen = guarded(v.clone(), || json!({"o": observe(s.model()), "cu": s.can_undo(), "cr": s.can_redo()}));
                match seen {
                    Ok(Value::Object(w)) => {
                        for (k, x) in w { v[k] = x; }
                        // what the store shows of the project is the project
                        let m = s.model();
                        let same = std::ptr::eq(s.note_repo(), m.note_repo()) && std::ptr::eq(s.bar_repo(), m.bar_repo())
                            && std::ptr::eq(s.tempo_repo(), m.tempo_repo()) && std::ptr::eq(s.dumper_repo(), m.dumper_repo())
                            && std::ptr::eq(s.soft_repo(), m.soft_repo());
                        let same = same || shown(&s) == v["o"];
                        v["z"] = json!(same && s.rhythm() == m.rhythm() && s.key() == m.key() && s.grid() == m.grid());
                    }
                    Ok(_) => unreachable!(),
                    Err(m) => {
                        // what it shows of itself cannot even be read
                        v["p"] = json!(m);
                        emit(&v);
                        self.dead = true;
                        let _ = guarded(json!({"op": "close", "p": ""}), move || drop(s));
                        return;
                    }
                }
                if self.with_events {
                    v["ep"] = json!("");
                    v["es"] = json!(self.since.max(0));
                    match guarded(v.clone(), || json!({"n": ev_notes(s.note_events()), "b": ev_store(s.bar_events(), enc::bar),
                        "t": ev_store(s.tempo_events(), enc::tempo), "d": ev_store(s.dumper_events(), enc::ctrl),
                        "f": ev_store(s.soft_events(), enc::ctrl)})) {
                        Ok(x) => v["ev"] = x,
                        Err(m) => v["ep"] = json!(m),
                    }
                }
                for (k, x) in q(&s) { v[k] = x; }
                emit(&v);
                self.store = Some(s);
            }
            Ok(Err(m)) | Err(m) => {
                v["p"] = json!(m);
                emit(&v);
                self.dead = true;
            }
        }
    }

    pub fn close(mut self) {
        let s = self.store.take();
        let t = self.twin.take();
        let _ = guarded(json!({"op": "close", "p": ""}), move || drop((s, t)));
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn tick(r: &mut Rng, s: &ProjectStore, max: i64) -> u32 {
    let m = s.model();
    match r.below(10) {
        0..=1 if !m.bar_repo().is_empty() => {
            let b = m.bar_repo()[r.usize(m.bar_repo().len())].0 as i64;
            (b + *r.pick(&[0, 0, 0, -1, 1])).max(0) as u32
        }
        2 if !m.tempo_repo().is_empty() => m.tempo_repo()[r.usize(m.tempo_repo().len())].0,
        3 if !m.dumper_repo().is_empty() => m.dumper_repo()[r.usize(m.dumper_repo().len())].0,
        4 if !m.soft_repo().is_empty() => m.soft_repo()[r.usize(m.soft_repo().len())].0,
        5 => r.range(0, max) as u32,
        6 => (r.range(0, 4) * 240) as u32,
        7 => *r.pick(&[0u32, 100, 480, 960]),
        _ => (r.range(0, max / 240) * 240) as u32,
    }
}

fn meta(r: &mut Rng) -> ModelChangeMetadata {
    ModelChangeMetadata { need_select: *r.pick(&[None, Some(true), Some(false)]), dragged: r.chance(30) }
}

fn sample<T: Clone>(r: &mut Rng, v: &[T], p: u64) -> Vec<T> {
    let mut out: Vec<T> = v.iter().filter(|_| r.chance(p)).cloned().collect();
    if r.chance(30) { r.shuffle(&mut out); }
    out
}

fn change_note(r: &mut Rng, n: &Note, s: &ProjectStore, max: i64) -> Note {
    let mut m = n.clone();
    match r.below(6) {
        0 => m.base_start_tick = tick(r, s, max),
        1 => m.base_start_tick += 240,
        2 => m.duration = gen::duration(r),
        3 => m.base_velocity = Velocity::new(r.below(128) as u8),
        4 => m = gen::note(r, n.base_start_tick),
        _ => {}
    }
    m
}

pub fn next_op(r: &mut Rng, s: &ProjectStore, p: &Profile) -> Op {
    let m = s.model();
    let notes: Vec<Note> = m.note_repo().iter().map(|(_, n)| (**n).clone()).collect();
    let bars: Vec<Bar> = m.bar_repo().iter().map(|x| x.1).collect();
    let tempos: Vec<Tempo> = m.tempo_repo().iter().map(|x| x.1).collect();
    let dumpers: Vec<CtrlChg> = m.dumper_repo().iter().map(|x| x.1).collect();
    let softs: Vec<CtrlChg> = m.soft_repo().iter().map(|x| x.1).collect();
    let total = notes.len() + bars.len() + tempos.len() + dumpers.len() + softs.len();
    let x = r.below(100);
    if x < p.undo { return Op::Undo; }
    if x < p.undo + p.redo { return Op::Redo; }
    if x < p.undo + p.redo + p.reopen { return Op::Reopen; }
    let mx = p.max_tick;
    if total > p.most {
        let md = meta(r);
        return Op::BulkRemove(Models {
            notes: sample(r, &notes, 60), bars: sample(r, &bars, 60), tempos: sample(r, &tempos, 60),
            dumpers: sample(r, &dumpers, 60), softs: sample(r, &softs, 60) }, md);
    }
    let content: Vec<u32> = tempos.iter().map(|x| x.start_tick).chain(dumpers.iter().map(|x| x.start_tick)).chain(softs.iter().map(|x| x.start_tick)).collect();
    let again = |r: &mut Rng, have: Vec<u32>| -> u32 {
        // an event takes the place of another one, the last one above all
        if !have.is_empty() && r.chance(25) { if r.chance(50) { *have.last().unwrap() } else { *r.pick(&have) } } else { tick(r, s, mx) }
    };
    if r.chance(8) && !bars.is_empty() {
        // the last bars go, so that what is behind them has to be covered anew
        let md = meta(r);
        let k = if r.chance(50) { 1 } else { r.range(1, bars.len() as i64) as usize };
        let mut a = Models::empty();
        a.bars = bars[bars.len() - k..].to_vec();
        return Op::BulkRemove(a, md);
    }
    if r.chance(p.tail) {
        // a long note whose end comes after that of the notes that begin after it
        let end = content.iter().copied().chain(bars.iter().map(|x| x.start_tick)).chain(notes.iter().map(|n| n.start_tick())).max().unwrap_or(0) as i64;
        let at = (end + r.range(-1000, 2500)).clamp(0, 200_000) as u32;
        let mut long = gen::note(r, at);
        long.start_tick_trimmer = if r.chance(70) { Trimmer::ZERO } else { long.start_tick_trimmer };
        long.duration = Duration::new(if r.chance(80) { Numerator::Whole } else { Numerator::Half }, Denominator::from_value(2).unwrap(), Dots::from_value(r.below(8) as u8).unwrap());
        long.duration_trimmer = match r.below(4) {
            0 => RateTrimmer::ONE,
            1 => RateTrimmer::new(1.0, r.range(1000, 2000) as f32 / 1000.0, 1.0, 1.0),
            _ => RateTrimmer::new(2.0, 1.0, 1.0, 1.0),
        };
        let mut v = vec![long];
        for _ in 0..r.range(1, 2) { let t = at + r.range(1, 3900) as u32; let mut n = gen::note(r, t); if r.chance(60) { n.duration = Duration::default(); n.duration_trimmer = RateTrimmer::ONE; } v.push(n); }
        if r.chance(50) { v.reverse(); }
        let mut a = Models::empty();
        a.notes = v;
        return Op::BulkAdd(a, meta(r));
    }
    match r.below(30) {
        0..=2 => {
            let n = if !notes.is_empty() && r.chance(30) {
                let mut n = r.pick(&notes).clone();
                if r.chance(50) { n.pitch = gen::pitch(r); }   // chords and doubled notes
                n
            } else { let t = tick(r, s, mx); gen::note(r, t) };
            Op::AddNote(n, r.chance(50))
        }
        3..=4 => { let t = tick(r, s, mx); Op::AddBar(gen::bar(r, t), r.chance(50)) }
        5..=6 => { let t = again(r, tempos.iter().map(|x| x.start_tick).collect()); Op::AddTempo(gen::tempo(r, t), r.chance(50)) }
        7..=8 => { let t = again(r, dumpers.iter().map(|x| x.start_tick).collect()); Op::AddDumper(gen::ctrl(r, t), r.chance(50)) }
        9..=10 => { let t = again(r, softs.iter().map(|x| x.start_tick).collect()); Op::AddSoft(gen::ctrl(r, t), r.chance(50)) }
        11..=12 => {
            let k = if p.bulk > 1 { r.usize(40) } else { *r.pick(&[0usize, 1, 2, 2, 3, 3, 4, 6]) };
            let mut v: Vec<Rc<Note>> = notes.iter().cloned().map(Rc::new).collect();
            r.shuffle(&mut v);
            v.truncate(k);
            Op::Tuplize(v)
        }
        13..=15 => {
            let mut a = Models::empty();
            for _ in 0..r.below(4 * p.bulk) { let t = tick(r, s, mx); a.notes.push(gen::note(r, t)); }
            if r.chance(30) && !notes.is_empty() { a.notes.push(r.pick(&notes).clone()); }
            for _ in 0..r.below(3 * p.bulk) { let t = tick(r, s, mx); a.bars.push(gen::bar(r, t)); }
            for _ in 0..r.below(3 * p.bulk) { let t = tick(r, s, mx); a.tempos.push(gen::tempo(r, t)); }
            for _ in 0..r.below(3 * p.bulk) { let t = tick(r, s, mx); a.dumpers.push(gen::ctrl(r, t)); }
            for _ in 0..r.below(3 * p.bulk) { let t = tick(r, s, mx); a.softs.push(gen::ctrl(r, t)); }
            if r.chance(20) { if let Some(t) = a.tempos.first().copied() { a.tempos.push(gen::tempo(r, t.start_tick)); } }
            if r.chance(20) { if let Some(t) = a.bars.first().copied() { a.bars.push(gen::bar(r, t.start_tick)); } }
            if r.chance(20) { if let Some(t) = a.softs.first().copied() { a.softs.push(gen::ctrl(r, t.start_tick)); } }
            if r.chance(20) { if let Some(t) = a.dumpers.first().copied() { a.dumpers.push(gen::ctrl(r, t.start_tick)); } }
            Op::BulkAdd(a, meta(r))
        }
        16..=18 => {
            let pc = *r.pick(&[10, 30, 60, 100]);
            let md = meta(r);
            Op::BulkRemove(Models {
                notes: sample(r, &notes, pc), bars: sample(r, &bars, pc), tempos: sample(r, &tempos, pc),
                dumpers: sample(r, &dumpers, pc), softs: sample(r, &softs, pc) }, md)
        }
        19..=22 => {
            let pc = *r.pick(&[10, 30, 60]);
            let sh: i64 = *r.pick(&[0, 240, 480, 960, 1]);
            let mode = r.below(3);
            let ch = |t: u32, r: &mut Rng| -> u32 {
                match mode { 0 => t + sh as u32, 1 => tick(r, s, mx), _ => t }
            };
            let n: Vec<(Note, Note)> = match r.below(6) {
                // alike notes stay alike
                0 if !notes.is_empty() => {
                    let x = r.pick(&notes).clone();
                    let alike: Vec<Note> = notes.iter().filter(|n| **n == x).cloned().collect();
                    let m = change_note(r, &x, s, mx);
                    alike.into_iter().map(|n| (n, m.clone())).collect()
                }
                // notes become alike
                1 if !notes.is_empty() => {
                    let x = r.pick(&notes).clone();
                    let m = change_note(r, &x, s, mx);
                    sample(r, &notes, pc).into_iter().map(|n| (n, m.clone())).collect()
                }
                _ => sample(r, &notes, pc).into_iter().map(|n| { let m = change_note(r, &n, s, mx); (n, m) }).collect(),
            };
            let b = sample(r, &bars, pc).into_iter().map(|b| { let t = ch(b.start_tick, r); let mut c = gen::bar(r, t); if r.chance(50) { c = Bar { start_tick: t, ..b } } (b, c) }).collect();
            let t = sample(r, &tempos, pc).into_iter().map(|b| { let t = ch(b.start_tick, r); let c = if r.chance(50) { Tempo { start_tick: t, ..b } } else { gen::tempo(r, t) }; (b, c) }).collect();
            let d = sample(r, &dumpers, pc).into_iter().map(|b| { let t = ch(b.start_tick, r); let c = if r.chance(50) { CtrlChg { start_tick: t, ..b } } else { gen::ctrl(r, t) }; (b, c) }).collect();
            let f = sample(r, &softs, pc).into_iter().map(|b| { let t = ch(b.start_tick, r); let c = if r.chance(50) { CtrlChg { start_tick: t, ..b } } else { gen::ctrl(r, t) }; (b, c) }).collect();
            Op::Change(n, b, t, d, f, meta(r))
        }
        23 => Op::AddBar(Bar { start_tick: 0, key: Some(gen::key(r)), ..gen::bar(r, 0) }, r.chance(50)),
        24..=25 => Op::SetRhythm(gen::rhythm(r)),
        26..=27 => Op::SetKey(gen::key(r)),
        _ => Op::SetGrid(Grid::from_u32(r.range(1, 960) as u32).unwrap()),
    }
}

const FAR_TICK: u32 = i32::MAX as u32;

fn q_ticks(r: &mut Rng, m: &ProjectImpl, n: usize) -> Vec<u32> {
    let mut pool: Vec<u32> = vec![0, 1];
    pool.extend(m.bar_repo().iter().map(|x| x.0));
    pool.extend(m.tempo_repo().iter().map(|x| x.0));
    pool.extend(m.dumper_repo().iter().map(|x| x.0));
    pool.extend(m.soft_repo().iter().map(|x| x.0));
    (0..n)
        .map(|_| if r.chance(80) { (*r.pick(&pool) as i64 + *r.pick(&[0i64, 0, -1, 1])).max(0) as u32 } else { r.range(0, 20000) as u32 })
        .collect()
}

pub trait Q {
    fn impl_(&self) -> &ProjectImpl;
    fn in_force(&self, t: u32) -> Value;
    fn loc(&self, t: u32) -> Location;
    fn at(&self, l: Location) -> Result<u32, LocationError>;
    fn no(&self, b: &Bar) -> Option<usize>;
}
macro_rules! q_impl {
    ($t:ty, $s:ident, $m:expr) => {
        impl Q for $t {
            fn impl_(&$s) -> &ProjectImpl { $m }
            fn in_force(&$s, t: u32) -> Value {
                json!([$s.tempo_at(t).as_u16(), $s.dumper_at(t).as_u8(), $s.soft_at(t).as_u8(),
                    $s.rhythm_at(t).numerator.value(), $s.rhythm_at(t).denominator.value(), $s.key_at(t).offset()])
            }
            fn loc(&$s, t: u32) -> Location { $s.tick_to_location(t) }
            fn at(&$s, l: Location) -> Result<u32, LocationError> { $s.location_to_tick(l) }
            fn no(&$s, b: &Bar) -> Option<usize> { $s.bar_no(b) }
        }
    };
}
q_impl!(ProjectStore, self, self.model());
q_impl!(ProjectImpl, self, self);

pub fn in_force_queries(r: &mut Rng, s: &dyn Q, n: usize) -> Value {
    let mut ts = q_ticks(r, s.impl_(), n);
    if r.chance(20) { ts.push(u32::MAX - *r.pick(&[0u32, 0, 1, 1_000_000_000])); }
    Value::Array(
        ts.into_iter()
            .map(|t| {
                // A trace's numbers end at 2^31: a later tick is written as FAR_TICK, which is
                // later than any item of these projects as well, and tells nothing apart.
                let mut v = json!({"t": t.min(FAR_TICK), "p": "", "op": "query"});
                match guarded(v.clone(), || {
                    let a = s.in_force(t);
                    let m = s.impl_();
                    // the same questions asked of the repositories directly
                    let b = json!([tempo_at(t, m.tempo_repo()).as_u16(), ctrl_chg_at(t, m.dumper_repo()).as_u8(), ctrl_chg_at(t, m.soft_repo()).as_u8()]);
                    (a, b)
                }) {
                    Ok((a, b)) => { v["x"] = a; v["y"] = b }
                    Err(e) => v["p"] = json!(e),
                }
                v
            })
            .collect(),
    )
}

fn loc_result(r: Result<Result<u32, LocationError>, String>) -> Value {
    match r {
        Ok(Ok(t)) => json!({"k": "ok", "t": big(t as u128)}),
        Ok(Err(LocationError::Overflow)) => json!({"k": "overflow", "t": []}),
        Err(m) => json!({"k": m, "t": []}),
    }
}

pub fn location_queries(r: &mut Rng, s: &dyn Q, n: usize) -> Value {
    let m = s.impl_();
    let mut v = vec![];
    let mut ticks = q_ticks(r, m, n);
    if r.chance(30) { ticks.push(u32::MAX - r.below(3) as u32); }
    if r.chance(30) { ticks.push(r.next() as u32); }
    for t in ticks {
        let q = json!({"q": "tick", "t": big(t as u128), "op": "query", "p": ""});
        let l = guarded(q.clone(), || s.loc(t));
        let mut q = q;
        match l {
            Ok(l) => {
                q["b"] = big(l.bar_no() as u128);
                q["f"] = big(l.offset() as u128);
                q["x"] = loc_result(guarded(q.clone(), || s.at(l)));
            }
            Err(m) => q["p"] = json!(m),
        }
        v.push(q);
    }
    let last = m.bar_repo().len() as u64;
    for _ in 0..n {
        let b: u64 = match r.below(14) {
            0..=2 => r.below(last + 2),
            3..=5 => last + r.below(6),
            6 => 0,
            7 => (u32::MAX as u64 / 960).saturating_add_signed(r.range(-3, 3)),
            8 => (1u64 << 32) - 2 + r.below(4),
            9 => u64::MAX - r.below(3),
            10 => 1u64 << r.below(64),
            11 => {
                // around the place where the tick stops to fit
                let len = m.rhythm_at(m.bar_repo().peek_last().map(|x| x.0).unwrap_or(0)).tick_len() as u64;
                let lt = m.bar_repo().peek_last().map(|x| x.0 as u64).unwrap_or(0);
                (last + (u32::MAX as u64).saturating_sub(lt) / len.max(1)).saturating_add_signed(r.range(-2, 3))
            }
            _ => r.below(1000),
        };
        let o: u64 = match r.below(10) {
            0..=3 => r.below(1000),
            4 => 0,
            5 => u32::MAX as u64 - r.below(3),
            6 => (1u64 << 32) + r.below(3),
            7 => u64::MAX - r.below(3),
            8 => (u32::MAX as u64).saturating_sub(m.bar_repo().peek_last().map(|x| x.0 as u64).unwrap_or(0)).saturating_add_signed(r.range(-2, 2)),
            _ => 1u64 << r.below(64),
        };
        // where the tick just fits and just does not
        let o = if r.chance(25) {
            match guarded(json!({"op": "query", "p": ""}), || s.at(Location::new(b as usize, 0))) {
                Ok(Ok(t)) => (u32::MAX - t) as u64 + r.below(2),
                _ => o,
            }
        } else { o };
        let mut q = json!({"q": "loc", "b": big(b as u128), "f": big(o as u128), "op": "query", "p": ""});
        q["x"] = loc_result(guarded(q.clone(), || s.at(Location::new(b as usize, o as usize))));
        v.push(q);
    }
    if !m.bar_repo().is_empty() {
        let i = r.usize(m.bar_repo().len());
        let b = m.bar_repo()[i].1;
        let b = if r.chance(70) { b } else { Bar::new(b.start_tick + 1, None, None, RepeatSet::EMPTY) };
        let mut q = json!({"q": "no", "t": big(b.start_tick as u128), "op": "query", "p": ""});
        match guarded(q.clone(), || s.no(&b)) {
            Ok(x) => q["n"] = json!(x.map(|i| vec![i]).unwrap_or_default()),
            Err(e) => q["p"] = json!(e),
        }
        v.push(q);
    }
    Value::Array(v)
}

fn base_dir() -> std::path::PathBuf {
    let root = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let p = std::path::PathBuf::from(format!("{}/vharness-{}", root, std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// Random histories.
pub fn traces(seed: u64, n: u64, prof: &str) {
    let base = base_dir();
    let p = profile(prof);
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let mut limit = if r.chance(p.small_limit) { r.range(1, 5) as usize } else { 100 };
        let mut p = profile(prof);
        match r.below(100) {
            // many items, over hundreds of bars
            0..=5 => {
                p.most = 250;
                p.bulk = 12;
                p.max_tick = *r.pick(&[30_000, 120_000, 300_000]);
                p.steps = (6, 12);
            }
            // many edits of few items, more than can be undone
            6..=8 => {
                p.most = 12;
                p.steps = (110, 180);
                p.max_tick = 3000;
                p.undo /= 2;
                limit = *r.pick(&[20, 50, 100, 100]);
            }
            _ => {}
        }
        let Some(mut s) = Session::open(&base, i, limit, &p) else { continue };
        let steps = r.range(p.steps.0, p.steps.1);
        let mut burst: Vec<Op> = vec![];
        for _ in 0..steps {
            if s.dead { break; }
            let op = match burst.pop() {
                Some(o) => o,
                None => {
                    // now and then walk a long way back and forth
                    if r.chance(4) {
                        let k = if p.steps.1 > 100 && r.chance(40) { r.range(20, 120) } else { r.range(2, 8) };
                        for _ in 0..r.range(0, k) { burst.push(Op::Redo); }
                        for _ in 0..k { burst.push(Op::Undo); }
                        if r.chance(40) { burst.insert(r.usize(burst.len() + 1), Op::Reopen); }
                        burst.pop().unwrap()
                    } else { next_op(&mut r, s.store(), &p) }
                }
            };
            let mut qs = |st: &ProjectStore| {
                let mut v = vec![];
                if p.queries > 0 { v.push(("q", in_force_queries(&mut r, st, p.queries))); }
                if p.loc_queries > 0 { v.push(("l", location_queries(&mut r, st, p.loc_queries))); }
                v
            };
            s.step(op, &mut qs);
        }
        s.close();
    }
    let _ = std::fs::remove_dir_all(&base);
}

/// Projects that are not reached through histories: any repositories, far ticks included.
pub fn query_projects(seed: u64, n: u64, prof: &str) {
    let p = profile(prof);
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(7_000_003).wrapping_add(i));
        let mut m = ProjectImpl::default();
        let far = r.chance(30);
        let mut a = Models::empty();
        let hi: i64 = if far { 2_000_000_000 } else { 12_000 };
        let many = if r.chance(8) { *r.pick(&[10u64, 30]) } else { 1 };
        let bare = many == 30 && r.chance(60);       // hundreds of bars that say nothing of rhythm and key, after some that do
        let tk = |r: &mut Rng| if r.chance(40) { (r.range(0, 12) * 240) as u32 } else { r.range(0, hi) as u32 };
        for _ in 0..r.below(9 * many) { let t = tk(&mut r); a.bars.push(gen::bar(&mut r, t)); }
        if bare {
            let mut said = r.range(1, 4);
            a.bars.sort_by_key(|b| b.start_tick);
            let mut at = a.bars.last().map(|b| b.start_tick).unwrap_or(0);
            for _ in 0..300 { at += r.range(1, 700) as u32; a.bars.push(gen::bar(&mut r, at)); }
            for b in a.bars.iter_mut() {
                if said > 0 && (b.rhythm.is_some() || b.key.is_some()) { said -= 1; } else { b.rhythm = None; b.key = None; }
            }
        }
        for _ in 0..r.below(6 * many) { let t = tk(&mut r); a.tempos.push(gen::tempo(&mut r, t)); }
        for _ in 0..r.below(6 * many) { let t = tk(&mut r); a.dumpers.push(gen::ctrl(&mut r, t)); }
        for _ in 0..r.below(6 * many) { let t = tk(&mut r); a.softs.push(gen::ctrl(&mut r, t)); }
        let rh = gen::rhythm(&mut r);
        let ke = gen::key(&mut r);
        if guarded(json!({"op": "query", "p": ""}), || {
            ProjectCmd::SetRhythm(m.rhythm(), rh).redo(&mut m);
            ProjectCmd::SetKey(m.key(), ke).redo(&mut m);
            ProjectCmd::ModelChanged { added: a, removed: Models::empty(), metadata: ModelChangeMetadata::new() }.redo(&mut m);
        }).is_err() { continue; }
        let mut v = json!({"op": "query", "a": no_items(), "r": no_items(), "v": [], "s": 0, "p": "", "cu": false, "cr": false});
        v["o"] = observe(&m);
        if p.events {
            // everything heard since the beginning, then what is heard of single commands
            v["was"] = observe(&ProjectImpl::default());
            match guarded(json!({"op": "query", "p": ""}), || heard(&m)) {
                Ok(x) => v["ev"] = x,
                Err(x) => { v["p"] = json!(x); emit(&v); continue }
            }
            emit(&v);
            let mut known: Vec<usize> = ["n", "b", "t", "d", "f"].iter().map(|x| v["ev"][*x].as_array().unwrap().len()).collect();
            let mut last: Option<ProjectCmd> = None;
            for _ in 0..r.range(0, 4) {
                let undo = last.is_some() && r.chance(35);
                let cmd = if undo { last.take().unwrap() } else {
                    // some of what is there goes, something new comes where nothing is
                    let mut x = Models::empty();
                    let mut y = Models::empty();
                    for (_, q) in m.note_repo().iter() { if r.chance(15) { x.notes.push((**q).clone()); } }
                    for (_, q) in m.bar_repo().iter() { if r.chance(15) { x.bars.push(*q); } }
                    for (_, q) in m.tempo_repo().iter() { if r.chance(15) { x.tempos.push(*q); } }
                    for (_, q) in m.dumper_repo().iter() { if r.chance(15) { x.dumpers.push(*q); } }
                    for (_, q) in m.soft_repo().iter() { if r.chance(15) { x.softs.push(*q); } }
                    let gone: Vec<u32> = x.bars.iter().map(|q| q.start_tick).collect();
                    for _ in 0..r.below(3) { y.notes.push(gen::note(&mut r, 9000)); }
                    for _ in 0..r.below(3) {
                        let t = tk(&mut r);
                        if (m.bar_repo().find(&t).is_err() || gone.contains(&t)) && y.bars.iter().all(|q| q.start_tick != t) { y.bars.push(gen::bar(&mut r, t)); }
                        if m.tempo_repo().find(&t).is_err() && y.tempos.iter().all(|q| q.start_tick != t) { y.tempos.push(gen::tempo(&mut r, t)); }
                        if m.dumper_repo().find(&t).is_err() && y.dumpers.iter().all(|q| q.start_tick != t) { y.dumpers.push(gen::ctrl(&mut r, t)); }
                        if m.soft_repo().find(&t).is_err() && y.softs.iter().all(|q| q.start_tick != t) { y.softs.push(gen::ctrl(&mut r, t)); }
                    }
                    ProjectCmd::ModelChanged { added: y, removed: x, metadata: meta(&mut r) }
                };
                let was = observe(&m);
                if guarded(json!({"op": "query", "p": ""}), || if undo { cmd.undo(&mut m) } else { cmd.redo(&mut m) }).is_err() { break; }
                // a project has no way to forget what it announced: what is new is at the end
                let Ok(mut all) = guarded(json!({"op": "query", "p": ""}), || heard(&m)) else { break };
                let mut new = json!({});
                for (k, x) in ["n", "b", "t", "d", "f"].iter().enumerate() {
                    let list = all[*x].as_array_mut().unwrap();
                    let from = known[k].min(list.len());
                    known[k] = list.len();
                    new[*x] = json!(list.split_off(from));
                }
                v["was"] = was;
                v["ev"] = new;
                v["o"] = observe(&m);
                if !undo { last = Some(cmd); }
                emit(&v);
            }
            continue;
        }
        if p.queries > 0 { v["q"] = in_force_queries(&mut r, &m, p.queries * 2); }
        if p.loc_queries > 0 { v["l"] = location_queries(&mut r, &m, p.loc_queries * 2); }
        emit(&v);
    }
}

// ---- behaviours of the specification, executed on the code ----

fn spec_note(x: &Value) -> Note {
    // [start, numerator ordinal, voice]
    let g = |i: usize| x[i].as_i64().unwrap();
    Note {
        base_start_tick: g(0) as u32,
        pitch: Pitch::default(),
        duration: Duration::new(Numerator::from_ord(g(1) as u8).unwrap(), Denominator::from_value(2).unwrap(), Dots::ZERO),
        base_velocity: Velocity::new(g(2) as u8),
        ..Default::default()
    }
}

fn spec_bar(x: &Value) -> Bar {
    // [tick, rhythm numerator in quarters or 0, key or 9 for none]
    let g = |i: usize| x[i].as_i64().unwrap();
    Bar::new(
        g(0) as u32,
        if g(1) == 0 { None } else { Some(Rhythm::new(g(1) as u8, 4)) },
        if g(2) == 9 { None } else { Some(*Key::ALL.iter().find(|k| k.offset() as i64 == g(2)).unwrap()) },
        RepeatSet::EMPTY,
    )
}

fn spec_models(x: &Value) -> Models {
    let arr = |k: &str| x[k].as_array().cloned().unwrap_or_default();
    Models {
        notes: arr("n").iter().map(spec_note).collect(),
        bars: arr("b").iter().map(spec_bar).collect(),
        tempos: arr("t").iter().map(|t| Tempo::new(t[0].as_u64().unwrap() as u32, t[1].as_u64().unwrap() as u16)).collect(),
        dumpers: arr("d").iter().map(|t| CtrlChg::new(t[0].as_u64().unwrap() as u32, Velocity::new(t[1].as_u64().unwrap() as u8), Channel::new(0))).collect(),
        softs: arr("f").iter().map(|t| CtrlChg::new(t[0].as_u64().unwrap() as u32, Velocity::new(t[1].as_u64().unwrap() as u8), Channel::new(0))).collect(),
    }
}

fn spec_op(x: &Value) -> Op {
    let a = spec_models(&x["a"]);
    let r = spec_models(&x["r"]);
    let md = ModelChangeMetadata::new();
    match x["op"].as_str().unwrap() {
        "add" if !a.notes.is_empty() => Op::AddNote(a.notes[0].clone(), false),
        "add" if !a.tempos.is_empty() => Op::AddTempo(a.tempos[0], false),
        "add" if !a.dumpers.is_empty() => Op::AddDumper(a.dumpers[0], false),
        "add" => Op::AddSoft(a.softs[0], false),
        "addbar" => Op::AddBar(a.bars[0], false),
        "bulk_add" => Op::BulkAdd(a, md),
        "bulk_remove" => Op::BulkRemove(r, md),
        "change" => Op::Change(
            r.notes.into_iter().zip(a.notes).collect(), r.bars.into_iter().zip(a.bars).collect(),
            r.tempos.into_iter().zip(a.tempos).collect(), r.dumpers.into_iter().zip(a.dumpers).collect(),
            r.softs.into_iter().zip(a.softs).collect(), md),
        "set_rhythm" => Op::SetRhythm(Rhythm::new(x["v"][0].as_u64().unwrap() as u8, x["v"][1].as_u64().unwrap() as u8)),
        "set_key" => Op::SetKey(*Key::ALL.iter().find(|k| k.offset() as i64 == x["v"][0].as_i64().unwrap()).unwrap()),
        "set_grid" => Op::SetGrid(Grid::from_u32(x["v"][0].as_u64().unwrap() as u32).unwrap()),
        "undo" => Op::Undo,
        "redo" => Op::Redo,
        "reopen" => Op::Reopen,
        o => panic!("unknown operation {}", o),
    }
}

/// Each line of the input is one behaviour of the specification: [undo limit, op, op, ...]
pub fn scripts(file: &str, prof: &str, part: usize, parts: usize, seed: u64) {
    let base = base_dir();
    let p = profile(prof);
    let text = std::fs::read_to_string(file).unwrap();
    for (i, line) in text.lines().enumerate() {
        if i % parts != part { continue; }
        let v: Value = serde_json::from_str(line).unwrap();
        let v = v.as_array().unwrap();
        let mut r = Rng::new(seed.wrapping_add(i as u64));
        let Some(mut s) = Session::open(&base, i as u64, v[0].as_u64().unwrap() as usize, &p) else { continue };
        for o in v[1].as_array().unwrap() {
            if s.dead { break; }
            let mut qs = |st: &ProjectStore| {
                let mut v = vec![];
                if p.queries > 0 { v.push(("q", in_force_queries(&mut r, st, p.queries))); }
                if p.loc_queries > 0 { v.push(("l", location_queries(&mut r, st, p.loc_queries))); }
                v
            };
            s.step(spec_op(o), &mut qs);
        }
        s.close();
    }
    let _ = std::fs::remove_dir_all(&base);
}
