mod access;
mod auth;
mod env;
mod odd;
mod read;
mod saved;
mod settings;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc::Run::new(&id);
    if std::env::var("MC_PANICS").is_err() { mc::silence(); }
    match id.as_str() {
        "P04" => read::p04(&run),
        "P03" => saved::p03(&run),
        "P06" => odd::p06(&run),
        "P05" => settings::p05(&run),
        "P02" => auth::p02(&run),
        "P01" => access::p01(&run),
        o => { eprintln!("unknown property {o}"); std::process::exit(3) }
    }
    run.finish()
}
