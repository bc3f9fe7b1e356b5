mod conc;
mod crud;
mod env;
mod kinds;
mod parts;

/// queries of saved reports: their own faithfulness is X02's
pub fn sample_queries() -> Vec<metadata::reports::Query> {
    let es = gen::es_requests();
    let fu = gen::funnels();
    vec![metadata::reports::Query::EventSegmentation(es[0].clone()), metadata::reports::Query::Funnel(fu[0].clone()), metadata::reports::Query::EventSegmentation(es[es.len() / 2].clone()), metadata::reports::Query::Funnel(fu[fu.len() / 2].clone())]
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let run = mc::Run::new(&id);
    match id.as_str() {
        "M01" => crud::histories(&run),
        "M02" => crud::fields(&run),
        "M03" => conc::concurrent(&run),
        "M04" => conc::dying(&run),
        "M05" => parts::dictionaries(&run),
        "M06" => parts::groups(&run),
        "M07" => parts::sessions(&run),
        "M08" => parts::columns(&run),
        "M09" => parts::custom_events(&run),
        "M10" => parts::membership(&run),
        "M11" => parts::settings(&run),
        o => { eprintln!("unknown property {o}"); std::process::exit(3) }
    }
    run.finish()
}
