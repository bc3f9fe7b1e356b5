mod env;
mod model;
mod parts;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc::Run::new(&id);
    match id.as_str() {
        "I01" => parts::values(&run),
        "I02" => parts::identity(&run),
        "I03" => parts::sessions(&run),
        "I04" => parts::profiles(&run),
        "I05" => parts::refusals(&run),
        "I06" => parts::definitions(&run),
        "I07" => parts::transformers(&run),
        o => { eprintln!("unknown property {o}"); std::process::exit(3) }
    }
    run.finish()
}
