mod env;
mod filt;
mod fun;
mod seg;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc::Run::new(&id);
    mc::silence();
    match id.as_str() {
        "Q02" => filt::q02(&run),
        "Q03" => fun::q03(&run),
        "Q01" => seg::q01(&run),
        o => { eprintln!("unknown property {o}"); std::process::exit(3) }
    }
    run.finish()
}
