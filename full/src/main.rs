#[path = "../../mc/src/driver.rs"]
mod driver;
#[path = "../../mc/src/explore.rs"]
#[macro_use]
mod explore;
#[path = "../../mc/src/props/feeds.rs"]
mod feeds;
mod history;
mod props;
#[path = "../../mc/src/util.rs"]
mod util;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    if id == "history" {
        return history::child(args[1].parse().expect("number"));
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    std::process::exit(driver::main(&id, &args, &tier, props::find(&id)));
}
