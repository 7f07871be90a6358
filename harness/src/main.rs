mod api;
mod cli;
mod cmds;
mod codeentry;
mod conc;
mod crypto;
mod engine;
mod extra;
mod faults;
mod files;
mod gens;
mod hist;
mod listing;
mod memio;
mod memory;
mod model;
mod place;
mod qr;
mod term;
mod recovery;
mod refimpl;
mod robust;
mod session;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(
        std::env::var("PFPV_HOME").unwrap_or_else(|_| "/verif".to_owned()),
    );
    let mut props = Vec::new();
    props.extend(hist::props());
    props.extend(crypto::props());
    props.extend(recovery::props());
    props.extend(session::props());
    props.extend(files::props());
    props.extend(faults::props());
    props.extend(memory::props());
    props.extend(codeentry::props());
    props.extend(qr::props());
    props.extend(listing::props());
    props.extend(conc::props());
    props.extend(place::props());
    props.extend(term::props());
    props.extend(robust::props());
    props.extend(api::props());
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("usage: pfpv ID [--replay FILE]");
        std::process::exit(2);
    };
    if std::env::var_os("PFPV_CHILD").is_none() {
        std::process::exit(engine::supervise(&id, &verif, &args[1..]));
    }
    let replay = match args.get(2).map(|s| s.as_str()) {
        Some("--replay") => args.get(3).map(std::path::PathBuf::from),
        _ => None,
    };
    engine::install_panic_hook();
    std::env::remove_var("PFPV_CHILD");
    let ctx = engine::Ctx::new(&id, &verif);
    let code = engine::run_prop(&ctx, prop, replay.as_deref());
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    std::process::exit(code);
}
