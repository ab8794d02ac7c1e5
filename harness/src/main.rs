mod big;
mod checks;
mod rawsrv;
mod srv;
mod traffic;
mod util;
mod wire;
use util::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let case = std::env::var("VH_CASE").ok().and_then(|s| s.parse().ok());
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    util::init(&id, tier, seed, case, &dir);
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(20000);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    if id == "C25" && args.get(2).map(String::as_str) == Some("child") {
        checks::c25::child();
    }
    if id == "C27" && args.get(2).map(String::as_str) == Some("selftest") {
        checks::c27::selftest(args.get(3).map_or("", String::as_str));
        return;
    }
    if let Err(e) = std::panic::catch_unwind(|| run(&id)) {
        on_panic(e, "the main thread");
    }
    finish();
}

fn run(id: &str) {
    match id {
        "C01" => checks::c01::run(),
        "C02" => checks::c02::run(),
        "C03" => checks::c03::run(),
        "C04" => checks::c04::run(),
        "C05" => checks::c05::run(),
        "C06" => checks::c06::run(),
        "C07" => checks::c07::run(),
        "C08" => checks::c08::run(),
        "C09" => checks::c09::run09(),
        "C10" => checks::c09::run10(),
        "C11" => checks::c11::run(),
        "C12" => checks::c12::run(),
        "C23" => checks::c23::run(),
        #[cfg(wruster_verif)]
        "C14" => checks::c14::run(),
        #[cfg(not(wruster_verif))]
        "C14" => {
            c().assume("the private types of the pools could not be reached on this tree: the pools are observed through the servers that use them");
            checks::c13::run()
        }
        "C13" => checks::c13::run(),
        "C15" => checks::c15::run(),
        "C16" => checks::c16::run(),
        "C17" => checks::c17::run(),
        "C18" => checks::c18::run(),
        "C19" => checks::c19::run(),
        "C20" => checks::c20::run(),
        "C21" => checks::c21::run(),
        "C22" => checks::c22::run(),
        "C24" => checks::c24::run(),
        "C25" => checks::c25::run(),
        "C26" => checks::c26::run(),
        "C27" => checks::c27::run(),
        "C28" => checks::c28::run(),
        "C29" => checks::c29::run(),
        "C30" => checks::c30::run(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
