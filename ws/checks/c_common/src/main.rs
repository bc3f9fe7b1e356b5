mod civil;
mod time;
mod types;
mod requests;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc::Run::new(&id);
    match id.as_str() {
        "T01" => time::trunc(&run),
        "T02" => time::columns(&run),
        "T03" => time::ranges(&run),
        "T04" => time::windows(&run),
        "X01" => types::columns(&run),
        "X02" => requests::saved(&run),
        "X03" => types::patch(&run),
        o => { eprintln!("unknown property {o}"); std::process::exit(3) }
    }
    run.finish()
}
