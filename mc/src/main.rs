mod driver;
#[macro_use]
mod explore;
mod props;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    std::process::exit(driver::main(&id, &args, &tier, props::find(&id)));
}
