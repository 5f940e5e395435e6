mod chain;
mod expect;
mod gen;
mod minim;
mod model;
mod oracle;
mod rng;
mod run;
mod sim;
mod stubs;
mod util;

fn main() {
    // a panic of the code under test is an outcome the chain records, not noise on stderr
    if std::env::var("HPLSIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new().stack_size(run::STACK).spawn(move || run::main(&args)).unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("hplsim: internal error: {m}");
            3
        }
    };
    std::process::exit(code);
}
