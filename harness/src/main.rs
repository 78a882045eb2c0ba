mod enc;
mod gen;
mod limits;
mod project;
mod render;
mod util;
mod value;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a[i].as_str();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    util::init(s(2));
    match s(1) {
        "traces" => project::traces(n(3), n(4), s(5)),
        "queries" => project::query_projects(n(3), n(4), s(5)),
        "scripts" => project::scripts(s(3), s(4), n(5) as usize, n(6) as usize, n(7)),
        "enum" => render::enumerate(s(3), n(4) as u32, n(5), n(6), n(7), n(8)),
        "tunes" => render::random(n(3), n(4), s(5)),
        "maps" => render::maps(n(3) as u32, n(4), n(5), n(6), n(7)),
        "tunescripts" => render::tune_scripts(s(3), n(4) as usize, n(5) as usize),
        "mapscripts" => render::map_scripts(s(3), n(4) as usize, n(5) as usize),
        "marksets" => render::mark_sets(),
        "markscripts" => render::mark_scripts(s(3), n(4) as usize, n(5) as usize),
        "pitches" => value::pitches(),
        "notescripts" => value::note_scripts(s(3), n(4) as usize, n(5) as usize),
        "notes" => value::notes(n(3), n(4), s(5)),
        "trims" => value::trims(n(3), n(4)),
        "tuplescripts" => value::tuple_scripts(s(3), n(4) as usize, n(5) as usize),
        "tuples" => value::tuples(n(3), n(4)),
        "clips" => value::clips(n(3), n(4)),
        "clipscripts" => value::clip_scripts(s(3), n(4) as usize, n(5) as usize, n(6)),
        "clipdamage" => value::clip_damage(n(3), n(4)),
        "pastescripts" => value::paste_scripts(s(3), n(4) as usize, n(5) as usize),
        "pastes" => value::pastes(n(3), n(4)),
        "stackscripts" => value::stack_scripts(s(3), n(4) as usize, n(5) as usize),
        "stacks" => value::stacks(n(3), n(4)),
        "grid" => value::grid(n(5), n(6), n(3), n(4) as i64),
        "grids" => value::grids(n(3), n(4)),
        "inputscripts" => value::input_scripts(s(3), n(4) as usize, n(5) as usize),
        "texts" => value::texts(n(3), n(4)),
        "forms" => value::forms(n(3), n(4), n(5)),
        "eventscripts" => value::event_scripts(s(3), s(4), n(5) as usize, n(6) as usize),
        "events" => value::events(n(3), n(4)),
        "limits" => limits::all(n(3)),
        "limitscripts" => limits::scripts(s(3), s(4), n(5) as usize, n(6) as usize),
        "durations" => value::durations(n(3), n(4)),
        c => {
            eprintln!("unknown command {}", c);
            std::process::exit(2);
        }
    }
    util::finish();
}
