mod conc;
mod crash;
mod disk;
mod env;
mod rows;
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc::Run::new(&id);
    match id.as_str() {
        "S01" => rows::s01(&run),
        "S02" => rows::s02(&run),
        "S03" => crash::s03(&run),
        "S08" => crash::s08(&run),
        "S04" => conc::s04(&run),
        "S05" => rows::s05(&run),
        "S06" => rows::s06(&run),
        "S07" => rows::s07(&run),
        o => panic!("unknown property {o}"),
    }
    run.finish();
}
