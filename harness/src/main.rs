mod dict;
mod hist;
mod ledger;
mod p_adv;
mod p_client;
mod p_hist;
mod p_js;
mod p_scripts;
mod runner;
mod spec;
mod svm;
mod world;

fn main() {
    svm::install_stubs();
    runner::install_signals();
    let args: Vec<String> = std::env::args().collect();
    let mut props = p_hist::props();
    props.extend(p_adv::props());
    props.extend(p_client::props());
    props.extend(p_js::props());
    props.extend(p_scripts::props());
    let code = match (args.get(1).map(|s| s.as_str()), args.get(2).map(|s| s.as_str())) {
        (Some("dict"), _) => {
            dict::main_print();
            0
        }
        (Some("replay"), Some(path)) => runner::replay(&props, path),
        (Some(id), tier) => match props.iter().find(|p| p.id == id) {
            Some(p) => runner::run_property(p, tier == Some("thorough")),
            None => {
                eprintln!("no such property: {id}");
                2
            }
        },
        _ => {
            eprintln!("usage: xharness <ID> <quick|thorough> | xharness replay <file>");
            2
        }
    };
    std::process::exit(code);
}
